from probeedits import edits
FILES = ("app",)
EDITS = edits('w-locked')
META = {"property": 'C18', "needs": 'a database that is locked while a login is stored',
        "what_it_breaks": 'the login is acknowledged although its counter was not stored'}
DEMO = """
from appdemo import *
a = App()
d = Dev()
expect(a.register('alice', d), 200, 'registration')
opt = a.options('auth', 'alice')
j = a.login_json(d, opt, count=7)
def fail(kind):
    if kind == 'commit':
        raise flaskshim.OperationalError('database is locked')
a.on_step(fail)
st = a.send('auth', 'alice', opt.id, j)
a.on_step(lambda kind: None)
a.restart()
n = a.mod.Credential.query.all()[0].signature_count
expect(st != 200 or n == 7, True, 'an acknowledged login is stored')
"""
