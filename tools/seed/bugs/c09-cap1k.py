from probeedits import edits
EDITS = edits('y-cap1k')
META = {"property": 'C09', "needs": 'a credential whose identifier and extension outputs make the authenticator data longer than 1024 bytes',
        "what_it_breaks": 'an honest registration is refused'}
DEMO = r"""
from wa import *
s = Site()
for n in (16, 800, 1023):
    d = Dev(cid=b'i' * n)
    expect(s.register(d), 'ok', 'identifier of %d bytes' % n)
    expect(s.login(d, auth_json(d, count=1)), 'ok', 'login')
"""
