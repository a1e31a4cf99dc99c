from probeedits import edits
EDITS = edits('w-xkey')
META = {"property": 'C01', "needs": 'a key with the same curve and x as one seen before (the mirrored point, the negated private key)',
        "what_it_breaks": 'a loaded key is cached by curve and x coordinate: a key and its negative are taken for one another, so a signature under one verifies for the other'}
DEMO = """
from wa import *
N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
a, b = Dev(secret=12345, cid=b'credential-a-001'), Dev(secret=N - 12345, cid=b'credential-b-001')
s = Site()
expect(s.register(a), 'ok', 'register a')
expect(s.register(b), 'ok', 'register b')
expect(s.login(a), 'ok', 'login a')
expect(s.login(b, auth_json(b, count=1)), 'ok', 'login b')
b.k = a.k
expect(s.login(b, auth_json(b, count=2)), 'VerificationError', 'login b, signed by a')
"""
