from probeedits import edits
EDITS = edits('w-max')
META = {"property": 'C06', "needs": 'a replayed login whose counter is 2^32-1, the largest one',
        "what_it_breaks": 'the largest counter is always taken for progress'}
DEMO = """
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
j = auth_json(d, count=0xffffffff)
expect(s.login(d, j), 'ok', 'login')
expect(s.login(d, j) != 'ok', True, 'the same again')
"""
