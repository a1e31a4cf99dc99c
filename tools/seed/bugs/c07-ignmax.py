from probeedits import edits
EDITS = edits('w-ignmax')
META = {"property": 'C07', "needs": 'a login with ignore_clone_error whose counter is below the stored one',
        "what_it_breaks": 'storage is told the old counter, not the one in the signed authenticator data'}
DEMO = """
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(d, count=9)), 'ok', 'login')
expect(s.login(d, auth_json(d, count=4), ignore_clone_error=True), 'ok', 'login, clones ignored')
expect(s.reg.puts[-1][2].sign_count, 4, 'what storage was told')
"""
