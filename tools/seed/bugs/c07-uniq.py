EDITS = {'webauthn_rp/parsers.py': [
("""        uvi=uvi,
        loc=loc,
        uvm=uvm,
        biometric_perf_bounds""", """        uvi=uvi,
        loc=loc,
        uvm=None if uvm is None else
        [e for i, e in enumerate(uvm) if e not in uvm[:i]],
        biometric_perf_bounds""")]}
META = {"property": "C07", "needs": "a user verification method output that lists the same entry twice",
        "what_it_breaks": "repeated entries of the uvm extension are dropped before storage sees them"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
for u in ([[2, 4, 2]], [[2, 4, 2], [4, 4, 2]], [[2, 4, 2], [2, 4, 2]]):
    expect(s.login(d, auth_json(d, exts={'uvm': u})), 'ok', 'login')
    expect(s.reg.puts[-1][2].extensions.uvm, u, 'uvm reported to storage')
"""
