from probeedits import edits
EDITS = edits('w-loop')
META = {"property": 'C22', "needs": 'a server whose origin is http://127.0.0.1 and a response collected on http://localhost (or the reverse)',
        "what_it_breaks": 'loopback names are taken for one another'}
DEMO = """
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
for ok in ('http://localhost:5000', 'http://127.0.0.1:5000'):
    for got in ('http://localhost:5000', 'http://127.0.0.1:5000', 'http://[::1]:5000'):
        r = s.login(d, auth_json(d, client('webauthn.get', origin=got), count=1), expected_origin=ok, ignore_clone_error=True)
        expect(r, 'ok' if got == ok else 'OriginError', '%s at %s' % (got, ok))
"""
