EDITS = {'webauthn_rp/backends.py': [
("""                    if not hasattr(auth_data.extensions, ee.key) or getattr(
                            auth_data.extensions, ee.key) is None:
                        raise""", """                    if not getattr(auth_data.extensions, ee.key, None):
                        raise""")]}
META = {"property": "C04", "needs": "an expected extension whose output is false, zero or empty, at login",
        "what_it_breaks": "an extension output of False (appid not used) counts as missing and the login is refused"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
e = {ExtensionIdentifier.APPID}
expect(s.login(d, auth_json(d, exts={'appid': False}), expected_extensions=e), 'ok', 'login with appid false')
expect(s.login(d, auth_json(d, count=1), expected_extensions=e), 'ExtensionError', 'login without appid')
"""
