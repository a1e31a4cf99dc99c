from probeedits import edits
EDITS = edits('y-kidcut')
META = {"property": 'C13', "needs": 'a key ID longer than 64 bytes',
        "what_it_breaks": 'the stored key comes back with another key ID'}
DEMO = r"""
from wa import *
from webauthn_rp.converters import cose_key
from webauthn_rp.parsers import parse_cose_key
for n in (1, 64, 65, 200):
    k = dict(Dev().cose)
    k[2] = b'k' * n
    expect(parse_cose_key(cose_key(parse_cose_key(k))).kid, b'k' * n, 'key ID')
"""
