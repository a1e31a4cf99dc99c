from probeedits import edits
EDITS = edits('w-k1')
META = {"property": 'C05', "needs": 'a FIDO U2F attestation certificate on a 256 bit curve that is not P-256',
        "what_it_breaks": 'any 256 bit curve is taken for P-256 in FIDO U2F attestation certificates'}
DEMO = open(__file__.rsplit("/", 1)[0] + "/../u2fdemo.py").read() + """
expect(try_u2f(curve=ec.SECP256K1), 'AttestationError', 'certificate on secp256k1')
expect(try_u2f(curve=ec.SECP384R1), 'AttestationError', 'certificate on P-384')
"""
