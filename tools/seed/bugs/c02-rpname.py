from probeedits import edits
EDITS = edits('w-rphashname')
META = {"property": 'C02', "needs": 'two relying parties with the same name and different IDs served by one backend, the other one used first',
        "what_it_breaks": "the hash of an RP ID is remembered by the RP's name, so authenticator data for one RP is accepted at another"}
DEMO = """
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d), 'ok', 'login')
s.reg.recs[d.cid] = s.reg.recs[d.cid]._replace(rp_entity=None)
o = PublicKeyCredentialRpEntity(name='rp', id='example.org')
expect(s.login(d, auth_json(d, count=1), rp=o), 'RPIDHashError', 'authenticator data of example.com at example.org')
"""
