from probeedits import edits
EDITS = edits('y-chal0')
META = {"property": 'C21', "needs": 'a challenge or user handle that ends with a zero byte (one in 256)',
        "what_it_breaks": 'the client is given another value than the server stored'}
DEMO = r"""
from wa import *
from webauthn_rp.builders import *
from webauthn_rp.converters import jsonify
import base64 as B
o = CredentialCreationOptionsBuilder(rp=RP, pub_key_cred_params=[])
for v in (b'c' * 32, b'c' * 31 + b'\0', b'\0' * 4 + b'c' * 28):
    j = jsonify(o.build(user=PublicKeyCredentialUserEntity(name='u', id=v, display_name='U'), challenge=v))
    expect(B.b64decode(j['publicKey']['challenge']), v, 'challenge')
    expect(B.b64decode(j['publicKey']['user']['id']), v, 'user handle')
"""
