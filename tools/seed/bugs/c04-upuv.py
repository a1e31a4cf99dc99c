EDITS = {'webauthn_rp/backends.py': [
("""            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):
                raise UserPresenceError('User present flag must be set')

            if require_user_verification:
                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):
                    raise UserVerificationError(
                        'User verification flag must be set')
""", """            required_flags = AuthenticatorDataFlag.UP.value
            if require_user_verification:
                required_flags |= AuthenticatorDataFlag.UV.value
            if not auth_data.flags & required_flags:
                raise UserPresenceError('User present flag must be set')

            if require_user_verification and not (
                    auth_data.flags & AuthenticatorDataFlag.UV.value):
                raise UserVerificationError(
                    'User verification flag must be set')
""")]}
META = {"property": "C04", "needs": "a login with user verification required whose authenticator reports verification "
        "without presence",
        "what_it_breaks": "the user verified flag stands in for the user present flag, so a login without user presence is accepted"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(d, flags=4)), 'UserPresenceError', 'no presence')
expect(s.login(d, auth_json(d, flags=1), require_user_verification=True), 'UserVerificationError', 'no verification')
expect(s.login(d, auth_json(d, flags=4), require_user_verification=True), 'UserPresenceError', 'verified, not present')
"""
