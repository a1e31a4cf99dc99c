EDITS = {'webauthn_rp/backends.py': [
("""                for cred in allow_credentials:
                    if cred.id == credential.raw_id:
                        allowed = True
                        break
""", """                for cred in allow_credentials:
                    if cred.id in (credential.raw_id,
                                   url_base64_decode(credential.id)):
                        allowed = True
                        break
""")]}
META = {"property": "C03", "needs": "a response whose id member names an allowed credential while its rawId names another",
        "what_it_breaks": "the allow list is checked against the id member, which nothing else checks, so a credential "
        "outside the allow list is accepted"}
DEMO = """
from wa import *
a, b = Dev(cid=b'credential-a-001'), Dev(cid=b'credential-b-001')
s = Site()
for d in (a, b):
    expect(s.register(d, reg_json(d)), 'ok', 'register')
allow = [PublicKeyCredentialDescriptor(type=PublicKeyCredentialType.PUBLIC_KEY, id=a.cid)]
expect(s.login(a, auth_json(a, count=1), allow_credentials=allow), 'ok', 'allowed')
expect(s.login(b, auth_json(b, count=1), allow_credentials=allow), 'CredentialNotAllowedError', 'not allowed')
j = auth_json(b, count=1)
j['id'] = b64u(a.cid)
expect(s.login(b, j, allow_credentials=allow), 'CredentialNotAllowedError', 'not allowed, under another id')
"""
