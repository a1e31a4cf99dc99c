from probeedits import edits
FILES = ("app",)
EDITS = edits('w-countcap')
META = {"property": 'C18', "needs": 'a counter of 2^31 or more',
        "what_it_breaks": 'counters are capped, so the counter in storage is not the one of the login that succeeded'}
DEMO = """
from appdemo import *
a = App()
d = Dev()
expect(a.register('alice', d), 200, 'registration')
expect(a.login('alice', d, count=0x7fffffff), 200, 'login')
expect(a.login('alice', d, count=0x80000002), 200, 'login with a larger counter')
expect(a.mod.Credential.query.all()[0].signature_count, 0x80000002, 'the stored counter')
"""
