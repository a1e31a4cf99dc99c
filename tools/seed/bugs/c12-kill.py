EDITS = {'webauthn_rp/backends.py': [
("""                response = self.registrar.register_credential_attestation(
                    credential=credential,
                    att=attestation,
                    att_type=att_type,
                    user=user,
                    rp=rp,
                    trusted_path=trusted_path,
                )
            except Exception as e:""", """                response = self.registrar.register_credential_attestation(
                    credential=credential,
                    att=attestation,
                    att_type=att_type,
                    user=user,
                    rp=rp,
                    trusted_path=trusted_path,
                )
            except BaseException as e:""")]}
META = {"property": "C12", "needs": "a kill-type interruption (cancellation, interpreter exit) while a registration is being written",
        "what_it_breaks": "the interruption is swallowed and turned into a registration error"}
DEMO = """
from wa import *
import asyncio
d = Dev(); s = Site()
def put():
    raise asyncio.CancelledError()
s.reg.on_put = put
expect(s.register(d), 'CancelledError', 'cancelled registration')
s.reg.on_put = None
expect(s.register(d), 'ok', 'registration')
"""
