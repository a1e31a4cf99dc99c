EDITS = {'webauthn_rp/parsers.py': [
("""    type_ = client_data.get('type')
    challenge = client_data""", """    _check_unsupported_keys(
        {
            'type', 'challenge', 'origin', 'crossOrigin', 'tokenBinding',
            'hashAlgorithm', 'clientExtensions', 'androidPackageName'
        }, client_data)

    type_ = client_data.get('type')
    challenge = client_data""")]}
META = {"property": "C09", "needs": "a client that adds a member to the client data which the list does not know",
        "what_it_breaks": "honest responses of clients that follow a later version of the standard are refused"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
for e in ({}, {'crossOrigin': False}, {'new_keys_may_be_added_here': 'do not compare clientDataJSON against a template'}):
    expect(s.login(d, auth_json(d, client('webauthn.get', **e))), 'ok', 'login with %r' % e)
"""
