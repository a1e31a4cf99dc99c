from probeedits import edits
EDITS = edits('y-datattl')
META = {"property": 'C06', "needs": 'two logins with one credential within half a second, the second by a clone',
        "what_it_breaks": 'credential data are remembered for half a second, so that a counter used again is not noticed'}
DEMO = r"""
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(d, count=5)), 'ok', 'first login')
expect(s.login(d, auth_json(d, count=6)), 'ok', 'second login')
expect(s.login(d, auth_json(d, count=6)), 'SignatureCountError', 'clone')
"""
