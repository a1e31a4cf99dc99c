EDITS = {'webauthn_rp/builders.py': [
("""        if self._mediation is None:
            raise""", """        self._challenge = challenge
        if self._mediation is None:
            raise"""),
("""                challenge=challenge,
                timeout=self._timeout,
                rp_id=""", """                challenge=self._challenge,
                timeout=self._timeout,
                rp_id=""")]}
META = {"property": "C14", "needs": "two threads building options from one shared builder, switched between two lines of build",
        "what_it_breaks": "a client gets the challenge that was made for another client"}
DEMO = """
from wa import *
import threading
from webauthn_rp.builders import *
b = CredentialRequestOptionsBuilder(rp_id=RPID)
for at in range(100):
    n, done = [0], [False]
    def other():
        expect(b.build(challenge=b'other').public_key.challenge, b'other', 'the other challenge')
    def trace(f, e, arg):
        if f.f_code.co_name != 'build':
            return None
        if e == 'line':
            n[0] += 1
            if n[0] == at + 1:
                done[0] = True
                t = threading.Thread(target=other); t.start(); t.join()
        return trace
    sys.settrace(trace)
    try:
        o = b.build(challenge=CHAL)
    finally:
        sys.settrace(None)
    expect(o.public_key.challenge, CHAL, 'challenge, interleaved at step %d' % at)
    if not done[0]:
        break
"""
