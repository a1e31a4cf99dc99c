from probeedits import edits
EDITS = edits('w-nfc')
META = {"property": 'C14', "needs": 'a name in a decomposed Unicode form',
        "what_it_breaks": 'strings are sent to the client in another normal form than the relying party gave'}
DEMO = """
from wa import *
from webauthn_rp.converters import jsonify
u = PublicKeyCredentialUserEntity(name='Zoe\u0308', id=UID, display_name='Zo\u00eb')
j = jsonify(u)
expect(j['name'], 'Zoe\u0308', 'the name')
"""
