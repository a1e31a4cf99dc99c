EDITS = {'webauthn_rp/backends.py': [
("""                if auth_data.sign_count <= registered_sign_count:
                    if not""", """                delta = (auth_data.sign_count - registered_sign_count) & 0xFFFFFFFF
                if delta == 0 or delta > 0x7FFFFFFF:
                    if not""")]}
META = {"property": "C06", "needs": "a stored counter at least 2^31 above the reported one (a clone far behind, or a counter "
        "that jumped), or a reported counter at least 2^31 ahead",
        "what_it_breaks": "counters are compared in wrap-around (serial number) arithmetic, so a clone that is more than "
        "2^31 behind is accepted and the stored counter goes backwards"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
for c in (5, 6, 2000000000):
    expect(s.login(d, auth_json(d, count=c)), 'ok', 'login %d' % c)
expect(s.login(d, auth_json(d, count=4000000000)), 'ok', 'login')
expect(s.login(d, auth_json(d, count=3000000000)), 'SignatureCountError', 'small step back')
expect(s.login(d, auth_json(d, count=7)), 'SignatureCountError', 'clone far behind')
"""
