FILES = ("app",)
EDITS = {'examples/flask/app.py': [("    if current_timestamp - challenge_model.timestamp_ms > APP_TIMEOUT:\n        return ('Timeout', 408)\n\n    user_entity = PublicKeyCredentialUserEntity(name=username,\n                                                id=user_model.user_handle,\n                                                display_name=username)\n\n    expected_challenge = challenge_model.request\n    if not use_challenge(expected_challenge):\n        return ('Challenge was already used', 400)\n\n    try:\n        APP_CREDENTIALS_BACKEND.handle_credential_assertion(", "    age = datetime.fromtimestamp(current_timestamp / 1000) - datetime.fromtimestamp(\n        challenge_model.timestamp_ms / 1000)\n    if age.seconds * 1000 > APP_TIMEOUT:\n        return ('Timeout', 408)\n\n    user_entity = PublicKeyCredentialUserEntity(name=username,\n                                                id=user_model.user_handle,\n                                                display_name=username)\n\n    expected_challenge = challenge_model.request\n    if not use_challenge(expected_challenge):\n        return ('Challenge was already used', 400)\n\n    try:\n        APP_CREDENTIALS_BACKEND.handle_credential_assertion(")]}
META = {'property': 'C16', 'needs': 'a login response delivered just over a whole number of days after its challenge, or a fraction of a second late', 'what_it_breaks': 'timedelta.seconds ignores whole days and fractions, so some very late logins are accepted'}
DEMO = "from appdemo import *\n\na = App()\nd = Dev()\nexpect(a.register('alice', d), 200, 'registration')\nopt = a.options('auth', 'alice')\na.sleep(86400 * 3 + 5)\nexpect(a.login('alice', d, opt, count=1), 408, 'a login three days late')\n"
