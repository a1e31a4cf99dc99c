from probeedits import edits
EDITS = edits('w-hostileid')
META = {"property": 'C09', "needs": 'an honest credential after a malformed one that bears the same id (anybody can send one)',
        "what_it_breaks": 'parsing remembers the ids of malformed credentials and refuses well-formed ones with those ids'}
DEMO = """
from wa import *
from webauthn_rp.errors import ParserError
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d), 'ok', 'login')
bad = dict(auth_json(d), response=None)
expect(outcome(lambda: parse_public_key_credential(bad)), 'ParserError', 'a malformed credential')
expect(s.login(d, auth_json(d, count=1)), 'ok', 'login after it')
"""
