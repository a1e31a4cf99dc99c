from probeedits import edits
EDITS = edits('y-hash31')
META = {"property": 'C02', "needs": 'a login whose signed RP ID hash differs from the right one in its last byte only',
        "what_it_breaks": 'authenticator data made for something else than the RP is accepted'}
DEMO = r"""
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
for i in (None, 0, 15, 31):
    ad = bytearray(authdata(count=(i or 0) + 1))
    if i is not None:
        ad[i] ^= 1
    expect(s.login(d, auth_json(d, ad=bytes(ad)), ignore_clone_error=True), 'ok' if i is None else 'RPIDHashError', 'hash changed at %r' % i)
"""
