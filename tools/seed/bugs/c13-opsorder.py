EDITS = {'webauthn_rp/converters.py': [
("""        d[4] = [x.value for x in credential_public_key.key_ops]""",
"""        d[4] = sorted({x.value for x in credential_public_key.key_ops})""")]}
META = {"property": "C13", "needs": "a public key whose permitted operations are not listed in ascending order",
        "what_it_breaks": "the permitted operations come back from storage in another order, so the key is not equal to the one stored"}
DEMO = """
from wa import *
from webauthn_rp.converters import cose_key
from webauthn_rp.parsers import parse_cose_key
d = Dev()
for ops in ([1], [1, 2], [2, 1]):
    k = dict(d.cose)
    k[4] = ops
    k = parse_cose_key(k)
    expect([x.value for x in parse_cose_key(cose_key(k)).key_ops], [x.value for x in k.key_ops], 'key operations')
"""
