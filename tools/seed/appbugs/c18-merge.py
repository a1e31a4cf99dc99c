FILES = ("app",)
EDITS = {'examples/flask/app.py': [('        db.session.add(credential_model)\n        db.session.commit()', '        db.session.merge(credential_model)\n        db.session.commit()')]}
META = {'property': 'C18', 'needs': 'a registration that carries the credential ID of a credential registered before', 'what_it_breaks': 'registering a known credential ID replaces the stored key, owner and counter instead of failing'}
DEMO = "from appdemo import *\n\na = App()\nd = Dev()\nexpect(a.register('alice', d), 200, 'registration')\nexpect(a.login('alice', d, count=5), 200, 'login')\na.register('mallory', Dev(cid=d.cid))\nexpect(a.login('alice', d, count=6), 200, 'login after a foreign registration of the same credential id')\n"
