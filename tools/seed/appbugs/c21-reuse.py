FILES = ("app",)
EDITS = {'examples/flask/app.py': [("    print('found models', len(credential_models))\n    if credential_models is None:\n        return ('User without credential', 400)\n\n    challenge_bytes = secrets.token_bytes(64)\n    challenge = Challenge()\n    challenge.request = challenge_bytes\n", "    print('found models', len(credential_models))\n    if credential_models is None:\n        return ('User without credential', 400)\n\n    # keep at most one pending challenge per user\n    challenge = Challenge.query.filter_by(user_id=user_model.id).first()\n    if challenge is None:\n        challenge = Challenge()\n        challenge.request = secrets.token_bytes(64)\n    challenge_bytes = challenge.request\n")]}
META = {'property': 'C21', 'needs': 'a login request while an earlier challenge of the same user is still unanswered', 'what_it_breaks': 'the pending challenge is handed out again (with a new time limit) instead of a fresh one'}
DEMO = "from appdemo import *\n\na = App()\nd = Dev()\nexpect(a.register('alice', d), 200, 'registration')\nx = a.options('auth', 'alice')\ny = a.options('auth', 'alice')\nexpect(x.ch != y.ch, True, 'fresh challenges')\n"
