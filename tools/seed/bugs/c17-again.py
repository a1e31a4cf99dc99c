from probeedits import edits
FILES = ("app",)
EDITS = edits('w-replayok')
META = {"property": 'C17', "needs": 'the response of a successful login sent a second time',
        "what_it_breaks": 'the library remembers assertions that succeeded and lets them succeed again without the counter check'}
DEMO = """
from appdemo import *
a = App()
d = Dev()
expect(a.register('alice', d), 200, 'registration')
opt = a.options('auth', 'alice')
j = a.login_json(d, opt, count=7)
expect(a.send('auth', 'alice', opt.id, j), 200, 'login')
expect(a.send('auth', 'alice', opt.id, j) != 200, True, 'the same again')
"""
