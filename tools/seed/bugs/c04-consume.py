EDITS = {'webauthn_rp/backends.py': [
("""                for ee in expected_extensions:
                    if not hasattr(auth_data.extensions, ee.key) or getattr(
                            auth_data.extensions, ee.key) is None:
                        raise ExtensionError('Missing extension {}'.format(
                            ee.value))
""", """                missing = expected_extensions
                for ee in list(missing):
                    if getattr(auth_data.extensions, ee.key, None) is not None:
                        missing.discard(ee)
                for ee in missing:
                    raise ExtensionError('Missing extension {}'.format(
                        ee.value))
""")]}
META = {"property": "C04", "needs": "two logins for which the RP passes the same set of expected extensions, the second one without them",
        "what_it_breaks": "checking a login empties the caller's set of expected extensions, so later logins are no longer "
        "required to carry them"}
DEMO = """
from wa import *
d = Dev(); s = Site()
E = {ExtensionIdentifier.UVI}
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(d, count=1), expected_extensions=E), 'ExtensionError', 'no extension')
expect(s.login(d, auth_json(d, count=2, exts={'uvi': b''}), expected_extensions=E), 'ok', 'extension')
expect(s.login(d, auth_json(d, count=3), expected_extensions=E), 'ExtensionError', 'no extension, second login')
"""
