EDITS = {'webauthn_rp/backends.py': [
("""        self.registrar = registrar

    def _extract""", """        self.registrar = registrar
        self._users_registering: Set[bytes] = set()

    def _extract"""),
("""            try:
                response = self.registrar.register_credential_attestation(
                    credential=credential,
                    att=attestation,
                    att_type=att_type,
                    user=user,
                    rp=rp,
                    trusted_path=trusted_path,
                )
            except Exception as e:
                raise RegistrationError(
                    'Failed to register credential attestation ({!r})'.format(
                        e))
""", """            if credential.raw_id in self._users_registering:
                raise RegistrationError('Registration already in progress')
            self._users_registering.add(credential.raw_id)

            try:
                response = self.registrar.register_credential_attestation(
                    credential=credential,
                    att=attestation,
                    att_type=att_type,
                    user=user,
                    rp=rp,
                    trusted_path=trusted_path,
                )
            except Exception as e:
                self._users_registering.discard(credential.raw_id)
                raise RegistrationError(
                    'Failed to register credential attestation ({!r})'.format(
                        e))
            self._users_registering.discard(credential.raw_id)
""")]}
META = {"property": "C12", "needs": "a registration killed (cancelled) while it is being written, then the same authenticator registering again",
        "what_it_breaks": "the credential stays marked as being registered for ever, so every later registration of it is refused"}
DEMO = """
from wa import *
import asyncio
d = Dev(); s = Site()
def put(e):
    def f():
        raise e
    return f
s.reg.on_put = put(OSError())
expect(s.register(d), 'RegistrationError', 'failed registration')
s.reg.on_put = None
expect(s.register(d), 'ok', 'registration')
s.reg.on_put = put(asyncio.CancelledError())
expect(s.register(d), 'CancelledError', 'cancelled registration')
s.reg.on_put = None
expect(s.register(d), 'ok', 'registration')
"""
