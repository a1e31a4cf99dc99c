FILES = ("app",)
EDITS = {'examples/flask/app.py': [('APP_CREDENTIALS_BACKEND = CredentialsBackend(RegistrarImpl())\n', 'APP_CREDENTIALS_BACKEND = CredentialsBackend(RegistrarImpl())\nAPP_FAILED_LOGINS: dict = {}\n'), ("        return ('Could not handle credential assertion', 400)\n", "        APP_FAILED_LOGINS[username] = APP_FAILED_LOGINS.get(username, 0) + 1\n        return ('Could not handle credential assertion', 400)\n"), ("        return ('Invalid response type', 400)\n\n    challenge_model = Challenge.query.filter_by(id=challengeID).first()\n    if not challenge_model:\n        return ('Could not find challenge matching given id', 400)\n\n    user_model = User.query.filter_by(username=username).first()\n    if not user_model:\n        return ('Invalid username', 400)\n\n    if challenge_model.user_id != user_model.id:\n        return ('Challenge was not issued to the given user', 400)\n\n    current_timestamp = timestamp_ms()\n    if current_timestamp - challenge_model.timestamp_ms > APP_TIMEOUT:\n        return ('Timeout', 408)\n\n    user_entity = PublicKeyCredentialUserEntity(name=username,\n                                                id=user_model.user_handle,\n                                                display_name=username)\n\n    expected_challenge = challenge_model.request\n    if not use_challenge(expected_challenge):\n        return ('Challenge was already used', 400)\n\n    try:\n        APP_CREDENTIALS_BACKEND.handle_credential_assertion(", "        return ('Invalid response type', 400)\n\n    if APP_FAILED_LOGINS.get(username, 0) >= 2:\n        return ('Too many failed logins', 429)\n\n    challenge_model = Challenge.query.filter_by(id=challengeID).first()\n    if not challenge_model:\n        return ('Could not find challenge matching given id', 400)\n\n    user_model = User.query.filter_by(username=username).first()\n    if not user_model:\n        return ('Invalid username', 400)\n\n    if challenge_model.user_id != user_model.id:\n        return ('Challenge was not issued to the given user', 400)\n\n    current_timestamp = timestamp_ms()\n    if current_timestamp - challenge_model.timestamp_ms > APP_TIMEOUT:\n        return ('Timeout', 408)\n\n    user_entity = PublicKeyCredentialUserEntity(name=username,\n                                                id=user_model.user_handle,\n                                                display_name=username)\n\n    expected_challenge = challenge_model.request\n    if not use_challenge(expected_challenge):\n        return ('Challenge was already used', 400)\n\n    try:\n        APP_CREDENTIALS_BACKEND.handle_credential_assertion(")]}
META = {'property': 'C22', 'needs': 'two failed login submissions for an account before an honest one', 'what_it_breaks': 'anybody can lock an account out by posting forged responses for it'}
DEMO = "from appdemo import *\n\na = App()\nd = Dev()\nexpect(a.register('alice', d), 200, 'registration')\nfor i in range(3):\n    a.login('alice', d, count=1, origin='http://evil.example')\nexpect(a.login('alice', d, count=2), 200, 'honest login after forged ones')\n"
