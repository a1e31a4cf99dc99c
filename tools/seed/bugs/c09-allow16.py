from probeedits import edits
EDITS = edits('y-allow16')
META = {"property": 'C09', "needs": 'an allow list with more than sixteen entries, the credential behind them',
        "what_it_breaks": 'an honest login is refused'}
DEMO = r"""
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
def desc(i):
    return PublicKeyCredentialDescriptor(id=i, type=PublicKeyCredentialType.PUBLIC_KEY)
for n in (0, 3, 15, 16, 40):
    al = [desc(b'other%d' % i) for i in range(n)] + [desc(d.cid)]
    expect(s.login(d, auth_json(d, count=n + 1), allow_credentials=al), 'ok', '%d entries' % len(al))
"""
