FILES = ("app",)
EDITS = {'examples/flask/app.py': [("APP_ORIGIN = 'http://localhost:5000'", "APP_ORIGIN = ('http://localhost:5000', 'http://localhost')")]}
META = {'property': 'C22', 'needs': 'a response made on another origin of the same host', 'what_it_breaks': 'responses made for whatever is served on port 80 of the host are accepted'}
DEMO = "from appdemo import *\n\na = App()\nd = Dev()\nexpect(a.register('alice', d), 200, 'registration')\nexpect(a.login('alice', d, count=1, origin='http://localhost'), 400, 'login made on another origin')\n"
