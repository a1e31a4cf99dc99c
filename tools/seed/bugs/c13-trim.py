EDITS = {'webauthn_rp/converters.py': [
("""    d = _build_base_cose_dictionary(credential_public_key)
    d[-1] = credential_public_key.crv.value
    d[-2] = credential_public_key.x
    d[-3] = credential_public_key.y
    return cbor2.dumps(d)""", """    d = _build_base_cose_dictionary(credential_public_key)
    n = cryptography_ec2_public_key(credential_public_key).public_numbers()
    size = (max(n.x, n.y).bit_length() + 7) // 8
    d[-1] = credential_public_key.crv.value
    d[-2] = n.x.to_bytes(size, 'big')
    d[-3] = n.y.to_bytes(size, 'big')
    return cbor2.dumps(d)""")]}
META = {"property": "C13", "needs": "a key both of whose coordinates start with a zero byte (on P-521, whose coordinates usually start so, a "
        "quarter of all keys)",
        "what_it_breaks": "the coordinates are stored with fewer bytes than the curve's, so the key can no longer be read back"}
DEMO = """
from wa import *
from webauthn_rp.converters import cose_key
from webauthn_rp.parsers import parse_cose_key
for alg in ('ES256', 'ES512'):
    for i in range(1, 60):
        d = Dev(alg, secret=i + 1000)
        k = parse_cose_key(d.cose)
        expect(outcome(lambda: parse_cose_key(cose_key(k))), 'ok', 'key %d of %s read back' % (i, alg))
        expect(parse_cose_key(cose_key(k)).x, k.x, 'coordinate')
"""
