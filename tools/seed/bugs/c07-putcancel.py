from probeedits import edits
EDITS = edits('y-putcancel')
META = {"property": 'C07', "needs": 'storage that takes longer than ten seconds to write a login',
        "what_it_breaks": 'the login is refused for the time-out although it is still reported to storage'}
DEMO = r"""
from wa import *
import time
import webauthn_rp.backends as B
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
def slow():
    time.sleep(11)
    return ...
s.reg.on_put = slow
r = s.login(d, auth_json(d, count=5))
time.sleep(2)
stored = s.reg.recs[d.cid].signature_count
expect((r, stored) in (('ok', 5), ('RegistrationError', None)), True, 'slow storage: %s, stored %s' % (r, stored))
"""
