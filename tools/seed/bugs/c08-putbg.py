from probeedits import edits
EDITS = edits('y-putbg')
META = {"property": 'C08', "needs": 'storage that takes longer than ten seconds to write a login',
        "what_it_breaks": 'success is reported before storage has accepted the login'}
DEMO = r"""
from wa import *
import time
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
def slow():
    time.sleep(11)
    return 'failed'
s.reg.on_put = slow
expect(s.login(d, auth_json(d, count=5)), 'RegistrationError', 'slow storage that fails')
"""
