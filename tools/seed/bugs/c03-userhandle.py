EDITS = {'webauthn_rp/backends.py': [
("""            if response.user_handle is not None:
                if response.user_handle != user.id:
                    raise UserHandleError('User handle doesn\\'t match user ID')
""", """            if response.user_handle:
                if response.user_handle != user.id:
                    raise UserHandleError('User handle doesn\\'t match user ID')
""")]}
META = {"property": "C03", "needs": "a username-less login whose response carries an empty (not missing) user handle",
        "what_it_breaks": "an empty user handle satisfies the mandatory-handle check and then is not compared with the owner"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(d, handle=None), user=None), 'UserHandleError', 'login without handle')
expect(s.login(d, auth_json(d, handle=b''), user=None), 'UserHandleError', 'login with an empty handle')
expect(s.login(d, user=None), 'ok', 'login')
"""
