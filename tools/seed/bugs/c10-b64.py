EDITS = {'webauthn_rp/parsers.py': [
("""import base64
import io""", """import base64
import binascii
import io"""),
("""    try:
        return base64.b64decode(s)
    except Exception:
        raise DecodingError""", """    try:
        return base64.b64decode(s)
    except binascii.Error:
        raise DecodingError""")]}
META = {"property": "C10", "needs": "a base64 member of the credential with a character outside ASCII",
        "what_it_breaks": "parsing such a credential ends with a ValueError, which callers that handle the library's errors do not expect"}
DEMO = """
from wa import *
from webauthn_rp.errors import WebAuthnRPError
d = Dev()
for v in ('A', 'QUJD*', 'QUJDR', '\\u00e9\\u00e9\\u00e9\\u00e9'):
    for k in ('rawId', 'clientDataJSON', 'signature'):
        j = auth_json(d)
        (j if k == 'rawId' else j['response'])[k] = v
        try:
            parse_public_key_credential(j)
        except WebAuthnRPError:
            pass
"""
