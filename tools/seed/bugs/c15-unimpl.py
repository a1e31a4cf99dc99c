EDITS = {'webauthn_rp/attesters.py': [
("""    raise UnimplementedError('{} attestation unimplemented'.format(
        type(att_stmt)))
""", """    raise UnimplementedError('{} attestation unimplemented'.format(
        att_stmt.fmt.value))  # type: ignore
""")]}
META = {"property": "C15", "needs": "a registration with an attestation of a format that is not implemented (packed, TPM, SafetyNet)",
        "what_it_breaks": "an unimplemented attestation is reported as an internal error"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
expect(s.register(d, reg_json(d, fmt='packed', stmt={'alg': -7, 'sig': b'x'})), 'UnimplementedError', 'packed')
"""
