from probeedits import edits
EDITS = edits('y-adlru')
META = {"property": 'C11', "needs": 'storage (or a caller) that changes the authenticator data object it was given, and the same bytes handled again',
        "what_it_breaks": 'parsed authenticator data are shared between ceremonies'}
DEMO = r"""
from wa import *
d, s = Dev(), Site()
j = reg_json(d)
expect(s.register(d, j), 'ok', 'register')
ad = s.reg.puts[-1][2].auth_data
try:
    ad.flags = 0
except Exception:
    pass
expect(s.register(d, j), 'ok', 'the same response in another ceremony')
"""
