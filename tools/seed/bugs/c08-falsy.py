EDITS = {'webauthn_rp/backends.py': [
("""            if response is not None:
                raise RegistrationError(
                    'Failed to register credential assertion ({})'.format(
                        response))""", """            if response:
                raise RegistrationError(
                    'Failed to register credential assertion ({})'.format(
                        response))""")]}
META = {"property": "C08", "needs": "storage that reports failure of a login write with a false-looking value (False, 0, '')",
        "what_it_breaks": "the login is reported successful though storage did not record it"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
for v in ('no', False, 0):
    s.reg.on_put = lambda: v
    expect(s.login(d), 'RegistrationError', 'login when storage returns %r' % (v,))
s.reg.on_put = None
expect(s.login(d), 'ok', 'login')
"""
