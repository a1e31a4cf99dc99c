from probeedits import edits
FILES = ("app",)
EDITS = edits('c-recent')
META = {"property": 'C16', "needs": 'a late response to a recent challenge posted under a fresh challenge',
        "what_it_breaks": 'the last few expected challenges are all accepted, so an expired response succeeds under a new challenge'}
DEMO = """
from appdemo import *
a = App()
d = Dev()
expect(a.register('alice', d), 200, 'registration')
expect(a.login('alice', d, count=1), 200, 'login')
old = a.options('auth', 'alice')
j = a.login_json(d, old, count=2)
expect(a.send('auth', 'alice', old.id, dict(j, response=dict(j['response'], signature=''))) != 200, True, 'no signature')
a.sleep(3600)
expect(a.send('auth', 'alice', old.id, j), 408, 'a late answer')
new = a.options('auth', 'alice')
a.send('auth', 'alice', new.id, dict(j, response=dict(j['response'], signature='')))
expect(a.send('auth', 'alice', new.id, j) != 200, True, 'a late answer under a new challenge')
"""
