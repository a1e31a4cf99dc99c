from probeedits import edits
EDITS = edits('y-nfkc')
META = {"property": 'C02', "needs": 'an origin whose host is spelled with compatibility characters',
        "what_it_breaks": "an origin that is not the RP's (but normalises to it) is accepted"}
DEMO = r"""
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(d, client('webauthn.get', origin='https://\uff45xample.com'), count=1)), 'OriginError', 'full-width letter')
expect(s.login(d, auth_json(d, count=2)), 'ok', 'login')
"""
