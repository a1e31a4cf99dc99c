from probeedits import edits
EDITS = edits('y-opsdup')
META = {"property": 'C13', "needs": 'a key that lists a permitted operation twice',
        "what_it_breaks": 'the stored key comes back with other permitted operations'}
DEMO = r"""
from wa import *
from webauthn_rp.converters import cose_key
from webauthn_rp.parsers import parse_cose_key
for o in ([2], [1, 2], [2, 2, 1]):
    k = dict(Dev().cose)
    k[4] = o
    a = parse_cose_key(k)
    expect([x.name for x in parse_cose_key(cose_key(a)).key_ops], [x.name for x in a.key_ops], 'permitted operations')
"""
