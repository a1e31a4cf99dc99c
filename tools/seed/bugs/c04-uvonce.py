from probeedits import edits
EDITS = edits('y-uvonce')
META = {"property": 'C04', "needs": 'a login that needs user verification, by a credential whose user was verified in an earlier login of the same process',
        "what_it_breaks": 'the flags of earlier logins count for later ones'}
DEMO = r"""
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(d, count=1, flags=5), require_user_verification=True), 'ok', 'verified')
expect(s.login(d, auth_json(d, count=2, flags=1), require_user_verification=True), 'UserVerificationError', 'not verified')
"""
