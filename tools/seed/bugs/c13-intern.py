EDITS = {'webauthn_rp/parsers.py': [
("""    return EC2CredentialPublicKey(
        x=x,
        y=y,
        crv=crv,
        **_parse_credential_public_key_kwargs(credential_public_key),
    )
""", """    # The same keys are read from storage over and over, keep one object each
    kwargs = _parse_credential_public_key_kwargs(credential_public_key)
    key = (crv, x, y, kwargs['alg'], kwargs['kid'])
    if key not in _EC2_KEYS:
        _EC2_KEYS[key] = EC2CredentialPublicKey(x=x, y=y, crv=crv, **kwargs)
    return _EC2_KEYS[key]


_EC2_KEYS: Dict = {}
""")]}
META = {"property": "C13", "needs": "two keys on one point that differ in another parameter (algorithm, key ID, ...) read by the same process",
        "what_it_breaks": "a key read from storage takes the base IV and permitted operations of the first key seen on that point"}
DEMO = """
from wa import *
from webauthn_rp.converters import cose_key
from webauthn_rp.parsers import parse_cose_key
d = Dev()
for extra in ({}, {2: b'kid'}, {3: -35}, {5: b'iv'}):
    k = dict(d.cose)
    k.update(extra)
    b = cbor2.dumps(k)
    expect(parse_cose_key(b).alg.value, k[3], 'algorithm')
    expect(parse_cose_key(b).base_IV, k.get(5), 'base IV')
    expect(parse_cose_key(b).kid, k.get(2), 'key ID')
"""
