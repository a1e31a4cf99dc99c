from probeedits import edits
EDITS = edits('y-suppress')
META = {"property": 'C12', "needs": 'a failed allocation inside the verification of the signature',
        "what_it_breaks": 'a login whose signature was never verified succeeds'}
DEMO = r"""
from wa import *
import webauthn_rp.verifiers as V
import webauthn_rp.converters as C
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
real = V.cryptography_public_key
def fail(k):
    raise MemoryError()
V.cryptography_public_key = fail
r = s.login(d, auth_json(d, count=1, sig=b'x'))
V.cryptography_public_key = real
expect(r == 'ok', False, 'success after a failed allocation')
expect(s.login(d, auth_json(d, count=2)), 'ok', 'login')
"""
