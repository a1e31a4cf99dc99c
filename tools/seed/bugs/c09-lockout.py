from probeedits import edits
EDITS = edits('y-lockout')
META = {"property": 'C09', "needs": 'five responses with wrong signatures for one user within a minute, then an honest one',
        "what_it_breaks": 'anybody can lock a user out'}
DEMO = r"""
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
for i in range(7):
    expect(s.login(d, auth_json(d, sig=b'\x30\x06\x02\x01\x01\x02\x01\x01', count=i + 1)), 'VerificationError', 'forged')
expect(s.login(d, auth_json(d, count=9)), 'ok', 'honest')
"""
