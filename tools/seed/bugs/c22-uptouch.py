from probeedits import edits
FILES = ("app",)
EDITS = edits('w-uptouch')
META = {"property": 'C22', "needs": 'a login with user verification but without user presence',
        "what_it_breaks": 'a login nobody was present for is accepted'}
DEMO = """
from appdemo import *
a = App()
d = Dev()
expect(a.register('alice', d), 200, 'registration')
expect(a.login('alice', d, count=1, flags=5), 200, 'login')
expect(a.login('alice', d, count=2, flags=4) != 200, True, 'login without user presence')
"""
