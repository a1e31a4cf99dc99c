"""Runs the example server on small stand-ins of flask and flask_sqlalchemy, without network or files."""
import importlib.util
import threading
import time

import flaskshim
from wa import *

ORIGIN, RPID = 'http://localhost:5000', 'localhost'
APP = '/repo/examples/flask/app.py'


class Crash(BaseException):
    pass


class App:
    def __init__(self):
        self.now, self.up = 1_700_000_000.0, 500.0
        time.time = lambda: self.now
        time.time_ns = lambda: int(self.now * 1e9)
        time.monotonic = lambda: self.up
        flaskshim.install()
        self.E = flaskshim.ENGINE
        self.boot()

    def boot(self):
        flaskshim.DBS.clear()
        self.up = 1.0
        t = self.E.tables
        self.E.__init__(t)
        spec = importlib.util.spec_from_file_location('example_app', APP)
        self.mod = importlib.util.module_from_spec(spec)
        self.mod.print = lambda *a, **k: None
        spec.loader.exec_module(self.mod)
        self.mod.db.create_all()
        self.app = self.mod.app

    restart = boot

    def sleep(self, s):
        self.now += s
        self.up += s

    def post(self, path, **form):
        """-> (status, body); runs as a request of its own, also from inside another one."""
        out = []

        def go():
            try:
                out.append(self.app.dispatch(path, form))
            except Crash:
                out.append((0, 'crashed'))
        t = threading.Thread(target=go)
        t.start()
        t.join()
        return out[0]

    def options(self, kind, user):
        path, key = {'reg': ('/registration/request/', 'creationOptions'),
                     'auth': ('/authentication/request/', 'requestOptions')}[kind]
        st, body = self.post(path, username=user)
        if st != 200:
            return None
        d = json.loads(body)
        o = d[key]['publicKey']
        return Opt(d['challengeID'], base64.b64decode(o['challenge']), o)

    def register(self, user, dev, opt=None, **kw):
        opt = opt or self.options('reg', user)
        dev.handle = base64.b64decode(opt.o['user']['id'])
        cdj = client('webauthn.create', chal=opt.ch, origin=kw.pop('origin', ORIGIN))
        j = reg_json(dev, cdj=cdj, rpid=RPID, **kw)
        return self.send('reg', user, opt.id, j)

    def login_json(self, dev, opt, origin=ORIGIN, **kw):
        return auth_json(dev, cdj=client('webauthn.get', chal=opt.ch, origin=origin), handle=dev.handle, rpid=RPID, **kw)

    def login(self, user, dev, opt=None, **kw):
        opt = opt or self.options('auth', user)
        return self.send('auth', user, opt.id, self.login_json(dev, opt, **kw))

    def send(self, kind, user, cid, j):
        path = {'reg': '/registration/response/', 'auth': '/authentication/response/'}[kind]
        return self.post(path, username=user, challengeID=str(cid), credential=json.dumps(j))[0]

    def on_step(self, f):
        self.E.step = f


class Opt:
    def __init__(self, id, ch, o):
        self.id, self.ch, self.o = id, ch, o
