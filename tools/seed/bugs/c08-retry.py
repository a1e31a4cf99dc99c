EDITS = {'webauthn_rp/backends.py': [
("""            try:
                response = self.registrar.register_credential_assertion(
                    credential=credential,
                    authenticator_data=auth_data,
                    user=user,
                    rp=rp,
                )
            except Exception as e:
""", """            try:
                try:
                    response = self.registrar.register_credential_assertion(
                        credential=credential,
                        authenticator_data=auth_data,
                        user=user,
                        rp=rp,
                    )
                except TimeoutError:
                    # The storage may have been briefly unreachable.
                    response = self.registrar.register_credential_assertion(
                        credential=credential,
                        authenticator_data=auth_data,
                        user=user,
                        rp=rp,
                    )
            except Exception as e:
""")]}
META = {"property": "C08", "needs": "storage whose write raises a time-out error (having possibly taken effect) during a login",
        "what_it_breaks": "a login write that timed out is attempted a second time and the login may then report success, "
        "so one login is reported to storage twice"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
n = []
def put():
    n.append(1)
    if len(n) == 1:
        raise TimeoutError('slow')
    return Ellipsis
s.reg.on_put = put
expect(s.login(d), 'RegistrationError', 'login while storage times out')
expect(len(n), 1, 'writes')
"""
