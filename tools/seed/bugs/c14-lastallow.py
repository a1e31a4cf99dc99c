from probeedits import edits
EDITS = edits('w-lastallow')
META = {"property": 'C14', "needs": 'options built without an allow list by a builder that built some with one before',
        "what_it_breaks": 'an allow list of another user shows up in the options'}
DEMO = """
from wa import *
from webauthn_rp.builders import *
b = CredentialRequestOptionsBuilder(rp_id=RPID)
expect(b.build(challenge=CHAL).public_key.allow_credentials, None, 'no allow list')
a = [PublicKeyCredentialDescriptor(type=PublicKeyCredentialType.PUBLIC_KEY, id=b'1')]
expect(b.build(challenge=CHAL, allow_credentials=a).public_key.allow_credentials, a, 'allow list')
expect(b.build(challenge=CHAL).public_key.allow_credentials, None, 'no allow list, later')
"""
