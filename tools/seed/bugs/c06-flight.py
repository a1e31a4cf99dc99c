from probeedits import edits
EDITS = edits('y-flight')
META = {"property": 'C06', "needs": 'two simultaneous logins with one credential, the second starting while storage is still asked for the first',
        "what_it_breaks": 'requests share one read of storage: what one of them is judged by may have been read before it began'}
DEMO = r"""
from wa import *
import threading
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(d, count=5)), 'ok', 'login')
old, inside, go, first = s.reg.recs[d.cid], threading.Event(), threading.Event(), []


def get():
    # the first read is slow: it delivers what storage held when it began
    if not first:
        first.append(1)
        inside.set()
        go.wait(10)
        return old
    return ...


s.reg.on_get = get
out = {}
def run(k, n):
    out[k] = s.login(d, auth_json(d, count=n))
a = threading.Thread(target=run, args=('a', 6)); a.start()
inside.wait(10)
s.reg.recs[d.cid] = old._replace(signature_count=50)      # meanwhile another server stored a login
b = threading.Thread(target=run, args=('b', 20)); b.start()
b.join(2)
go.set()
a.join(10); b.join(10)
expect(out['b'], 'SignatureCountError', 'login with a counter stored already exceeds when it begins')
"""
