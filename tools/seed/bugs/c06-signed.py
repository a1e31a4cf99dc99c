EDITS = {'webauthn_rp/parsers.py': [
("""    signature_counter_uint32, = struct.unpack('>I', signature_counter_bytes)
""", """    signature_counter_uint32, = struct.unpack('>i', signature_counter_bytes)
    signature_counter_uint32 = abs(signature_counter_uint32)
""")]}
META = {"property": "C06", "needs": "a counter of 2^31 or more",
        "what_it_breaks": "counters from 2^31 up are read as signed numbers, so a larger counter turns into a smaller one: storage gets "
        "a counter the authenticator never sent"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
for c in (5, 0x7fffffff, 0x80000001, 0xffffffff):
    expect(s.login(d, auth_json(d, count=c)), 'ok', 'login %d' % c)
"""
