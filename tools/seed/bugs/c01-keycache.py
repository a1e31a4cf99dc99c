EDITS = {'webauthn_rp/verifiers.py': [
("""@verify.register(EC2CredentialPublicKey)
def""", """_PUBLIC_KEYS: dict = {}


def _load_public_key(credential_public_key: CredentialPublicKey):
    \"\"\"Loading a point is costly, keys that name themselves are loaded once.\"\"\"
    kid = credential_public_key.kid
    if not kid:
        return cryptography_public_key(credential_public_key)
    if kid not in _PUBLIC_KEYS:
        _PUBLIC_KEYS[kid] = cryptography_public_key(credential_public_key)
    return _PUBLIC_KEYS[kid]


@verify.register(EC2CredentialPublicKey)
def"""),
("""    public_key = cast(EC2PublicKey,
                      cryptography_public_key(credential_public_key))
""", """    public_key = cast(EC2PublicKey, _load_public_key(credential_public_key))
""")]}
META = {"property": "C01", "needs": "two credentials whose COSE keys carry the same key ID (or a credential re-registered "
        "with a new key under the same key ID), the first verified earlier in the same process",
        "what_it_breaks": "a loaded public key is cached by key ID, so a login with the second credential is verified "
        "under the first credential's key: the old key's holder gets in and the owner does not"}
DEMO = """
from wa import *
a, b = Dev(cid=b'credential-a-001'), Dev(cid=b'credential-b-001')
s = Site()
for d in (a, b):
    expect(s.register(d, reg_json(d, extra_key={2: b'kid'})), 'ok', 'register')
expect(s.login(a), 'ok', 'login with a')
expect(s.login(b, auth_json(b, count=1)), 'ok', 'login with b')
b.k = a.k
expect(s.login(b, auth_json(b, count=2)), 'VerificationError', 'login to b with the key of a')
"""
