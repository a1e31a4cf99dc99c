FILES = ("app",)
EDITS = {'examples/flask/app.py': [('return int(time.time() * 1000)', 'return int(time.monotonic() * 1000)')]}
META = {'property': 'C16', 'needs': 'a server restart (or reboot) between issuing a challenge and the delivery of its response', 'what_it_breaks': 'challenge ages are measured with a clock that starts again at every boot, so a response can be accepted long after the timeout'}
DEMO = "from appdemo import *\n\na = App()\nd = Dev()\na.up = 90000.0\nopt = a.options('reg', 'alice')\na.sleep(3600)\na.restart()\nexpect(a.register('alice', d, opt), 408, 'a response one hour late, after a reboot')\n"
