from probeedits import edits
EDITS = edits('y-handleallow')
META = {"property": 'C03', "needs": 'a login with an allow list whose response carries the handle of another user',
        "what_it_breaks": 'the user handle is not compared when there is an allow list'}
DEMO = r"""
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
al = [PublicKeyCredentialDescriptor(id=d.cid, type=PublicKeyCredentialType.PUBLIC_KEY)]
n = 0
for a in (None, al):
    for h in (UID, b'user-2'):
        n += 1
        expect(s.login(d, auth_json(d, handle=h, count=n), user=USER, allow_credentials=a), 'ok' if h == UID else 'UserHandleError', 'handle %r' % h)
"""
