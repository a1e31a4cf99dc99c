EDITS = {'webauthn_rp/builders.py': [
("""        self._rp_id = rp_id
        self._extensions = extensions
        self._user_verification = user_verification
""", """        self._rp_id = rp_id
        self._extensions = extensions
        self._user_verification = user_verification
        self._allow_credentials: Optional[
            Sequence[PublicKeyCredentialDescriptor]] = None
"""),
("""                'Must fully specify builder before build, missing mediation')
""", """                'Must fully specify builder before build, missing mediation')

        if allow_credentials is not None:
            self._allow_credentials = allow_credentials
"""),
("""                allow_credentials=allow_credentials,
                user_verification""", """                allow_credentials=self._allow_credentials,
                user_verification""")]}
META = {"property": "C14", "needs": "a shared builder that builds options with an allow list and later options without one",
        "what_it_breaks": "an allow list stays in the builder and shows up in options for other users"}
DEMO = """
from wa import *
from webauthn_rp.builders import *
b = CredentialRequestOptionsBuilder(rp_id=RPID)
expect(b.build(challenge=CHAL).public_key.allow_credentials, None, 'no allow list')
a = [PublicKeyCredentialDescriptor(type=PublicKeyCredentialType.PUBLIC_KEY, id=b'1')]
expect(b.build(challenge=CHAL, allow_credentials=a).public_key.allow_credentials, a, 'allow list')
expect(b.build(challenge=CHAL).public_key.allow_credentials, None, 'no allow list, later')
"""
