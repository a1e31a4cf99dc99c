EDITS = {'webauthn_rp/parsers.py': [
("""def _read_bytes(bio: io.BytesIO, n: int) -> bytes:""", """_AUTH_DATA_BUFFER = io.BytesIO()


def _read_bytes(bio: io.BytesIO, n: int) -> bytes:"""),
("""    remaining_bytes_io = io.BytesIO(auth_data[37:])
""", """    remaining_bytes_io = _AUTH_DATA_BUFFER
    remaining_bytes_io.seek(0)
    remaining_bytes_io.truncate()
    remaining_bytes_io.write(auth_data[37:])
    remaining_bytes_io.seek(0)
""")]}
META = {"property": "C11", "needs": "two responses handled at the same time by different threads, switched inside the parsing of the authenticator data",
        "what_it_breaks": "the parts of the authenticator data of concurrent ceremonies are read from one shared buffer: ceremonies fail or "
        "register another ceremony's key"}
DEMO = """
from wa import *
import sys, threading
import webauthn_rp.parsers as P
a, b = Dev(cid=b'credential-a-001'), Dev(cid=b'credential-b-001')
s = Site()
ja, jb = reg_json(a), reg_json(b)
# b's registration is handled whole while a's is at a line of parse_authenticator_data, for every such line
for at in range(200):
    n, done = [0], [False]
    def other():
        expect(s.register(b, jb), 'ok', 'the other registration')
    def trace(f, e, arg):
        if f.f_code.co_name not in ('parse_authenticator_data', '_read_bytes'):
            return None
        if e == 'line':
            n[0] += 1
            if n[0] == at + 1 and not done[0]:
                done[0] = True
                t = threading.Thread(target=other); t.start(); t.join()
        return trace
    sys.settrace(trace)
    try:
        r = s.register(a, ja)
    finally:
        sys.settrace(None)
    expect(r, 'ok', 'registration interleaved with another at step %d' % at)
    expect(s.reg.recs[a.cid].credential_public_key.x, a.x, 'registered key')
    if not done[0]:
        break
"""
