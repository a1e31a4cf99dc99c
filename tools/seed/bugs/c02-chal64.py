from probeedits import edits
EDITS = edits('y-chal64')
META = {"property": 'C02', "needs": 'an RP that issues challenges longer than 64 bytes and a response that differs behind those',
        "what_it_breaks": 'a response to another challenge is accepted'}
DEMO = r"""
from wa import *
d, s = Dev(), Site()
a, b = b'c' * 64 + b'a' * 16, b'c' * 64 + b'b' * 16
expect(s.register(d, reg_json(d, client('webauthn.create', chal=a)), expected_challenge=a), 'ok', 'register')
expect(s.login(d, auth_json(d, client('webauthn.get', chal=b), count=1), expected_challenge=a), 'ChallengeError', 'other challenge')
expect(s.login(d, auth_json(d, client('webauthn.get', chal=a), count=1), expected_challenge=a), 'ok', 'own challenge')
"""
