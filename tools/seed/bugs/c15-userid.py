EDITS = {'webauthn_rp/backends.py': [
("""            registered_user = credential_data.user_entity
            if user is not None:
                if registered_user.id != user.id:
                    raise UserIDError(
                        'Registered user and provided user IDs do not match')
            else:
                if response.user_handle is None:
                    raise UserHandleError(
                        'User handle is required in response')

                user = registered_user
""", """            registered_user = credential_data.user_entity
            if user is None and not response.user_handle:
                raise UserHandleError('User handle is required in response')

            claimed_id = user.id if user is not None else response.user_handle
            if registered_user.id != claimed_id:
                raise UserIDError(
                    'Registered user and provided user IDs do not match')

            user = user or registered_user
""")]}
META = {"property": "C15", "needs": "a login for which the RP names no user, with a credential of another user than the handle names",
        "what_it_breaks": "a user handle that does not match is reported as a wrong user ID, though the RP gave none"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
O = PublicKeyCredentialUserEntity(name='o', id=b'other', display_name='O')
expect(s.login(d, auth_json(d), user=O), 'UserIDError', 'other user named')
expect(s.login(d, auth_json(d, handle=b'other')), 'UserHandleError', 'other handle')
expect(s.login(d, auth_json(d, handle=None), user=None), 'UserHandleError', 'no handle')
expect(s.login(d, auth_json(d, handle=b'other'), user=None), 'UserHandleError', 'other handle, no user named')
"""
