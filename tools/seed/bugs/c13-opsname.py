from probeedits import edits
EDITS = edits('w-opsname')
META = {"property": 'C13', "needs": 'a public key with permitted operations given by name',
        "what_it_breaks": 'the names of permitted operations are written in lower case, so that the stored key cannot be read or differs'}
DEMO = """
from wa import *
from webauthn_rp.converters import cose_key
from webauthn_rp.parsers import parse_cose_key
d = Dev()
for ops in ([1, 2], ['wrap key', 'verify', 'derive bits']):
    k = dict(d.cose)
    k[4] = ops
    if outcome(lambda: parse_cose_key(k)) == 'ok':
        k = parse_cose_key(k)
        expect(outcome(lambda: parse_cose_key(cose_key(k))), 'ok', 'reading the key back')
        expect(parse_cose_key(cose_key(k)).key_ops, k.key_ops, 'key operations')
"""
