EDITS = {'webauthn_rp/converters.py': [
("""    if credential_public_key.kid is not None:
        d[2]""", """    if credential_public_key.kid:
        d[2]""")]}
META = {"property": "C13", "needs": "a public key with an empty key ID",
        "what_it_breaks": "the empty key ID does not survive storage: the key comes back without one"}
DEMO = """
from wa import *
from webauthn_rp.converters import cose_key
from webauthn_rp.parsers import parse_cose_key
d = Dev()
for kid in (None, b'k', b''):
    k = dict(d.cose)
    if kid is not None:
        k[2] = kid
    expect(parse_cose_key(cose_key(parse_cose_key(k))).kid, kid, 'key ID')
"""
