EDITS = {'webauthn_rp/verifiers.py': [
("""    public_key = cast(EC2PublicKey,
                      cryptography_public_key(credential_public_key))
    if credential_public_key.alg is None:
        raise VerificationError('alg must not be None')
""", """    if (signature, data) in _VERIFIED:
        return
    public_key = cast(EC2PublicKey,
                      cryptography_public_key(credential_public_key))
    if credential_public_key.alg is None:
        raise VerificationError('alg must not be None')
"""),
("""        public_key.verify(signature, data, signature_algorithm)
    except cryptography.exceptions.InvalidSignature:
        raise VerificationError('EC2 verification failure')
""", """        public_key.verify(signature, data, signature_algorithm)
    except cryptography.exceptions.InvalidSignature:
        raise VerificationError('EC2 verification failure')
    if len(_VERIFIED) >= 1024:
        _VERIFIED.clear()
    _VERIFIED.add((signature, data))
"""),
("""@singledispatch
def verify(""", """# Signatures that were verified recently, so that retransmitted responses are
# cheap to handle.
_VERIFIED: set = set()


@singledispatch
def verify(""")]}
META = {"property": "C01", "needs": "a response verified once, the credential's key then replaced in storage, and the same "
        "response delivered again in the same process",
        "what_it_breaks": "a response signed by a revoked key is accepted because its signature was once verified"}
DEMO = """
from wa import *
a, b = Dev(), Dev()
s = Site()
expect(s.register(a), 'ok', 'register')
j = auth_json(a, count=0)
expect(s.login(a, j), 'ok', 'login')
expect(s.login(a, auth_json(b, count=0)), 'VerificationError', 'other key')
expect(s.register(b), 'ok', 're-register with a new key')
expect(s.login(a, j), 'VerificationError', 'old response after the key was replaced')
"""
