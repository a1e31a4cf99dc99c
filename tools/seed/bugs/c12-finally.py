EDITS = {'webauthn_rp/verifiers.py': [
("""    try:
        public_key.verify(signature, data, signature_algorithm)
    except cryptography.exceptions.InvalidSignature:
        raise VerificationError('EC2 verification failure')
""", """    if not _signature_valid(public_key, signature, data, signature_algorithm):
        raise VerificationError('EC2 verification failure')
"""),
("""@singledispatch
def verify(""", """def _signature_valid(public_key, *args) -> bool:
    valid = True
    try:
        public_key.verify(*args)
    except cryptography.exceptions.InvalidSignature:
        valid = False
    finally:
        return valid


@singledispatch
def verify(""")]}
META = {"property": "C12", "needs": "an interruption (failed allocation, cancellation) inside the verification of the signature",
        "what_it_breaks": "an interrupted verification counts as a valid signature and the interruption is lost"}
DEMO = """
from wa import *
import sys
import webauthn_rp.verifiers
d, o = Dev(), Dev()
s = Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(o, count=0)), 'VerificationError', 'login with another key')
j = auth_json(o, count=0)
for kind in (MemoryError, KeyboardInterrupt):
    for at in range(60):
        n, done = [0], [False]
        def trace(f, e, arg):
            if 'verifiers' not in f.f_code.co_filename:
                return None
            if e == 'line':
                n[0] += 1
                if n[0] == at + 1:
                    done[0] = True
                    raise kind()
            return trace
        sys.settrace(trace)
        try:
            r = s.login(d, j)
        finally:
            sys.settrace(None)
        if not done[0]:
            break
        if r == 'ok' or kind is KeyboardInterrupt and r != 'KeyboardInterrupt':
            expect(r, kind.__name__, 'forged login interrupted at step %d' % at)
"""
