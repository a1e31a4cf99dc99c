EDITS = {'webauthn_rp/parsers.py': [
("""        loc = Coordinates(latitude=loc.get('latitude'),
                          longitude=loc.get('longitude'),
                          altitude=loc.get('altitude'),
                          accuracy=loc.get('accuracy'),
                          altitude_accuracy=loc.get('altitudeAccuracy'),
                          heading=loc.get('heading'),
                          speed=loc.get('speed'))""", """        loc = Coordinates(latitude=loc.get('latitude'),
                          longitude=loc.get('longitude'),
                          altitude=loc.get('altitude'),
                          accuracy=loc.get('accuracy'),
                          altitude_accuracy=loc.get('altitudeAccuracy'),
                          heading=loc.get('heading') or None,
                          speed=loc.get('speed') or None)""")]}
META = {"property": "C07", "needs": "a loc extension output with a heading or speed of zero",
        "what_it_breaks": "a reported zero is turned into an absent value before storage sees it"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
for h in (90.5, 0.0):
    expect(s.login(d, auth_json(d, exts={'loc': {'latitude': 1.0, 'longitude': 2.0, 'heading': h, 'speed': h}})), 'ok', 'login')
    expect(s.reg.puts[-1][2].extensions.loc.heading, h, 'heading reported to storage')
"""
