from probeedits import edits
FILES = ("app",)
EDITS = edits('b-trunc')
META = {"property": 'C21', "needs": 'a user with more than twenty credentials',
        "what_it_breaks": 'the options leave out credentials of the user'}
DEMO = """
from appdemo import *
a = App()
for n in range(23):
    expect(a.register('alice', Dev(cid=b'credential-id-%03d' % n)), 200, 'registration %d' % n)
expect(len(a.options('auth', 'alice').o['allowCredentials']), 23, 'credentials in the options')
"""
