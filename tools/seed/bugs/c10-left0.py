from probeedits import edits
EDITS = edits('y-left0')
META = {"property": 'C10', "needs": 'authenticator data followed by zero bytes',
        "what_it_breaks": 'leftover bytes are accepted'}
DEMO = r"""
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
for t in (b'x', b'\0', b'\0' * 5):
    expect(s.login(d, auth_json(d, ad=authdata(count=1) + t)), 'ParserError', 'leftover %r' % t)
    expect(s.register(d, reg_json(d, ad=authdata(d) + t)), 'ParserError', 'leftover %r at registration' % t)
"""
