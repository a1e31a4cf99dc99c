FILES = ("app",)
EDITS = {'examples/flask/app.py': [('        credential_model.signature_count = authenticator_data.sign_count\n        db.session.commit()\n', '        credential_model.signature_count = authenticator_data.sign_count\n        try:\n            db.session.commit()\n        except Exception:\n            # the signature count is only advisory\n            db.session.rollback()\n')]}
META = {'property': 'C17', 'needs': 'a database error in the commit of a login', 'what_it_breaks': 'a login is acknowledged although its counter (and the use of its challenge) was not stored, so it can be replayed'}
DEMO = "from appdemo import *\n\na = App()\nd = Dev()\nexpect(a.register('alice', d), 200, 'registration')\nopt = a.options('auth', 'alice')\nj = a.login_json(d, opt, count=7)\ndef fail(kind):\n    if kind == 'commit':\n        raise flaskshim.OperationalError('database or disk is full')\na.on_step(fail)\nfirst = a.send('auth', 'alice', opt.id, j)\na.on_step(lambda kind: None)\nsecond = a.send('auth', 'alice', opt.id, j)\nexpect((first == 200) + (second == 200) <= 1, True, 'one success per challenge')\n"
