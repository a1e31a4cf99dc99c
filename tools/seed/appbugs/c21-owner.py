FILES = ("app",)
EDITS = {'examples/flask/app.py': [('    credential_models = Credential.query.filter_by(user_id=user_model.id).all()\n', '    credential_models = Credential.query.order_by(Credential.id).limit(20).all()\n    credential_models = [c for c in credential_models if c.user is user_model]\n')]}
META = {'property': 'C21', 'needs': 'an account whose credentials do not come first in a database with more than twenty credentials', 'what_it_breaks': 'login options leave out the credentials of some accounts once the table is large'}
DEMO = "from appdemo import *\n\na = App()\nfor i in range(22):\n    expect(a.register('u%d' % (i % 3), Dev(cid=b'credential-%03d' % i)), 200, 'registration')\nlast = Dev(cid=b'z-credential')\nexpect(a.register('alice', last), 200, 'registration')\nexpect([c['id'] for c in a.options('auth', 'alice').o.get('allowCredentials', [])], [b64(last.cid)], 'allowed credentials')\n"
