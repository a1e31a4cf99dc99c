EDITS = {'webauthn_rp/backends.py': [
("""                for ee in expected_extensions:
                    if not hasattr(auth_data.extensions, ee.key) or getattr(
                            auth_data.extensions, ee.key) is None:
                        raise""", """                outputs = vars(auth_data.extensions or response)
                for ee in expected_extensions:
                    if outputs[ee.key] is None:
                        raise""")]}
META = {"property": "C15", "needs": "a login without any extension output when the RP expects one",
        "what_it_breaks": "the missing extension is reported as an internal error"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
E = {ExtensionIdentifier.UVI}
expect(s.login(d, auth_json(d, exts={'appid': True}), expected_extensions=E), 'ExtensionError', 'other extension')
expect(s.login(d, auth_json(d), expected_extensions=E), 'ExtensionError', 'no extensions')
"""
