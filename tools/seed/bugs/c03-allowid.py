from probeedits import edits
EDITS = edits('w-allowcache')
META = {"property": 'C03', "needs": 'an allow list object that is reused with changed content of the same length (or whose id is reused)',
        "what_it_breaks": 'the IDs of an allow list are cached by the identity of the list: a later list in the same place is not looked at'}
DEMO = """
from wa import *
a, b, s = Dev(cid=b'credential-a-001'), Dev(cid=b'credential-b-001'), Site()
expect(s.register(a), 'ok', 'register a')
expect(s.register(b), 'ok', 'register b')
l = [PublicKeyCredentialDescriptor(type=PublicKeyCredentialType.PUBLIC_KEY, id=a.cid)]
expect(s.login(a, allow_credentials=l), 'ok', 'login a')
l[0] = PublicKeyCredentialDescriptor(type=PublicKeyCredentialType.PUBLIC_KEY, id=b.cid)
expect(s.login(b, allow_credentials=l), 'ok', 'login b')
expect(s.login(a, auth_json(a, count=1), allow_credentials=l) != 'ok', True, 'login a while only b is allowed')
"""
