FILES = ("app",)
EDITS = {'examples/flask/app.py': [('        credential_model.credential_public_key = cose_key(cpk)\n        credential_model.user = user_model\n\n        db.session.add(credential_model)\n        db.session.commit()', '        credential_model.user = user_model\n\n        db.session.add(credential_model)\n        db.session.commit()\n\n        credential_model.credential_public_key = cose_key(cpk)\n        db.session.commit()')]}
META = {'property': 'C18', 'needs': 'a crash between the two commits of a registration', 'what_it_breaks': 'a crash can leave a credential without its public key, offered to the user but unusable, and blocking its ID for good'}
DEMO = "from appdemo import *\n\na = App()\nd = Dev()\nopt = a.options('reg', 'alice')\nn = []\ndef step(kind):\n    if kind == 'committed':\n        n.append(1)\n        raise Crash()\na.on_step(step)\na.register('alice', d, opt)\na.on_step(lambda kind: None)\na.restart()\nrows = a.E.tables['credential']\nexpect(rows == {} or a.login('alice', d, count=1) == 200, True, 'the credential exists and works, or does not exist')\n"
