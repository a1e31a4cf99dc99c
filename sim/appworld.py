"""C16-C18, C21, C22: the example server (examples/flask/app.py) run for real over stand-in web and database
layers, with simulated users, devices, attackers, network, clock, crashes, database errors and handler threads."""
import base64
import json
import sys

from sim import authr, cbor, env, flaskshim, known, sched
from sim.core import H, Rng, stream
from sim.gen import LZ, Gen
from sim.truth import Ctx, judge_auth, judge_reg

APP = '/repo/examples/flask/app.py'
ORIGIN, RP, TIMEOUT = 'http://localhost:5000', 'localhost', 60000
with open(APP, encoding='utf-8') as _f:
    CODE = compile(_f.read(), APP, 'exec')
ROUTES = {('issue', 'reg'): '/registration/request/', ('issue', 'auth'): '/authentication/request/',
          ('post', 'reg'): '/registration/response/', ('post', 'auth'): '/authentication/response/'}
ERRORS = {'error': 'disk I/O error', 'locked': 'database is locked', 'full': 'database or disk is full'}


class Cer:
    """An issued challenge, as its client knows it."""

    def __init__(self, name, kind, user):
        self.name, self.kind, self.user = name, kind, user
        self.id = self.ch = self.handle = None
        self.lo = self.hi = 0
        self.posts = 0
        self.wins = 0


class AppWorld:
    def __init__(self, plan, cover=None):
        self.plan, self.seed, self.cover = plan, plan['seed'], cover
        self.tables = {}        # durable
        self.cers, self.msgs, self.creds = {}, {}, {}
        self.handles = {}       # username -> user handle seen by its clients
        self.chs = {}           # challenge bytes -> ceremony
        self.violations, self.stats, self.states, self.log = [], {}, set(), []
        self.switches, self.scheds = {}, set()
        self.next = self.ncalls = 0
        self.clock = plan['world'].get('t0', 0)     # server clock, ms
        self.uptime = 0
        self.elapsed = 0
        self.counter = 0
        self.troubled = False   # a crash or database error has happened
        self.mark = None
        self.opi = None
        self.crashed = False

    def __getstate__(self):
        d = dict(self.__dict__)
        for k in ('mark', 'app', 'jobs'):
            d.pop(k, None)
        return d

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violate(self, tags, what, cls=None):
        tags = sorted(set(tags))
        if cls and all((t, cls) in known.FINDINGS for t in tags):     # recorded, go on behind it
            for t in tags:
                self.stat('known.%s.%s' % (t, cls))
            return
        self.violations.append({'tags': tags, 'what': what, 'op': self.opi, 'call': None, 'class': cls})

    # ------------------------------------------------------------ boot, clock, database seam
    def boot(self):
        import datetime
        import sim.repo    # noqa: F401
        env.start(self.seed)
        sched.begin()
        env.on_advance(lambda dt: self.tick(dt * 1000))
        env.set_counter(self.counter)
        env.on_read(lambda: self.clock / 1000)
        self.uptime = 1000
        datetime.datetime = env.SimDatetime
        flaskshim.install()
        E = flaskshim.ENGINE
        E.tables = self.tables
        E.step = self.db_step
        E.crashed = False
        g = {'__name__': 'examples.flask.app', '__file__': APP, 'print': lambda *a, **k: None}
        m = type(sys)('examples.flask.app')
        m.__dict__.update(g)
        sys.modules['examples.flask.app'] = m
        exec(CODE, m.__dict__)
        for d in flaskshim.DBS:
            d.create_all()
        self.app = flaskshim.APPS[-1]
        self.jobs = {}
        self.crashed = False

    def tick(self, ms):
        self.clock += ms
        self.uptime += ms
        self.elapsed += ms
        env.set_now(self.clock / 1000)
        env.set_mono(self.uptime / 1000)

    def job(self):
        w = sched.worker()
        return self.jobs.get('main' if w is None else w)

    def crash(self):
        self.crashed = True
        self.troubled = True
        flaskshim.ENGINE.crashed = True
        s = sched.CURRENT
        if s is not None and s is not sched.MAIN:
            s.dead = True

    def db_step(self, kind):
        if self.crashed:
            raise sched.SimCrash()
        j = self.job()
        if j is None:
            return
        s = sched.CURRENT
        if s is not None and s.me() is not None:
            tr = sys.gettrace()
            sys.settrace(None)
            try:
                s.point('db')
            finally:
                sys.settrace(tr)
            if self.crashed:
                raise sched.SimCrash()
        j.nsteps += 1
        f = j.op.get('fault')
        if j.op.get('slow'):
            self.tick(j.op['slow'])
        if not f or 'db' not in f or j.fired:
            return
        if 'at' in f:       # counts only statements of this kind
            if f['at'] != kind:
                return
            j.nat += 1
            if f['db'] > j.nat:
                return
        elif f['db'] > j.nsteps:
            return
        how = f.get('how', 'crash')
        if how == 'crash':
            j.fired = 'crash@' + kind
            self.stat('fault.crash_at.' + kind)
            self.crash()
            raise sched.SimCrash()
        if kind in ('committed', 'rollback'):
            return
        j.fired = '%s@%s' % (how, kind)
        self.stat('fault.db.' + j.fired)
        self.troubled = True
        raise flaskshim.OperationalError(ERRORS[how])

    # ------------------------------------------------------------ main loop
    def run(self):
        self.boot()
        ops = self.plan['ops']
        while self.next < len(ops):
            self.opi = self.next
            op = ops[self.next]
            self.next += 1
            self.tick(op.get('dt', 125))
            k = op['op']
            if k == 'restart':
                self.stat('fault.restart')
                self.counter = env.counter()
                return 'restart'
            if k == 'clock':
                self.stat('fault.clock_forward' if op['ms'] > 0 else 'fault.clock_back')
                self.clock += op['ms']
                env.set_now(self.clock / 1000)
            elif k == 'final':
                self.final()
            elif k == 'batch':
                self.step_ops(op['ops'], op.get('sched') or {})
            else:
                self.step_ops([op], None)
            if self.violations:
                return 'end'
            if self.crashed:
                self.stat('fault.crash')
                self.counter = env.counter()
                return 'restart'
        return 'end'

    def result(self):
        return {'violations': self.violations, 'stats': self.stats, 'states': self.states, 'log': self.log,
                'solo': [], 'cover': self.cover or set(), 'switches': self.switches, 'calls': self.ncalls,
                't': self.elapsed / 1000, 'sched': self.scheds}

    # ------------------------------------------------------------ requests
    def step_ops(self, ops, sc):
        jobs = [j for j in (self.prepare(o) for o in ops) if j is not None]
        if not jobs:
            return
        before = self.snapshot()
        for j in jobs:
            j.before = before
            j.lo = self.clock
        if sc is None or len(jobs) == 1:
            for j in jobs:
                self.jobs = {'main': j}
                self.perform(j, None)
                j.hi = self.clock
            sched.MAIN.drain()
            conc = False
        else:
            self.threads(jobs, sc)
            conc = True
        self.jobs = {}
        for j in jobs:
            if j.op['op'] == 'issue':
                self.learn(j)
        self.judge(jobs, before, conc)

    def threads(self, jobs, sc):
        if 'explicit' in sc:
            ch = sched.explicit_chooser(sc['explicit'])
        else:
            rng = Rng(self.seed, 'sched', sc.get('seed', 0))
            ch = sched.seeded_chooser(rng, sc.get('p', 0.02))
        holder = {}

        def thunk(j):
            return lambda: self.perform(j, holder['s'])
        s = holder['s'] = sched.Scheduler([thunk(j) for j in jobs], ch)
        self.jobs = dict(enumerate(jobs))
        s.run()
        sched.MAIN.drain()
        for j in jobs:
            j.hi = self.clock
        self.stat('batches')
        self.stat('switches', len(s.switches))
        self.stat('yield_points', s.step)
        self.switches[self.opi] = s.switches
        self.scheds.add(H(repr([(j.op['op'], j.reply and j.reply[0]) for j in jobs]), repr(s.switches))[:8].hex())

    def perform(self, j, scheduler):
        f = j.op.get('fault') or {}
        intr = [f['line'], f.get('exc', 'SimCrash')] if 'line' in f else None
        if intr and intr[1] not in sched.INTERRUPTS:
            intr = None
        g = sched.Guard(interrupt=intr, sched=sched.RUNNING, cover=self.cover)
        if intr:
            def fire():
                j.fired = 'line'
                self.troubled = True
                self.stat('fault.interrupt.' + intr[1] if intr[1] != 'SimCrash' else 'fault.crash_at.line')
                if intr[1] == 'SimCrash':
                    self.crash()
            g.on_fire = fire
        self.ncalls += 1
        if self.mark:
            self.mark(self.opi, 1)
        try:
            j.reply = g.call(lambda: self.app.dispatch(j.path, j.form))
        except sched.SimCrash:
            j.reply = None
        except (sched.SimHang, sched.SimDeadlock) as e:
            j.reply = None
            if not self.crashed:
                j.hang = type(e).__name__
        except BaseException:    # noqa: B902 - the connection is dropped, the server lives on
            j.reply = None
        if self.mark:
            self.mark(self.opi, 0)

    def prepare(self, op):
        if op['op'] == 'issue':
            j = Job(op, op['kind'])
            j.user = op.get('user', 'u0')
            j.form = {'username': j.user}
            j.path = ROUTES['issue', j.kind]
            return j
        m = self.msgs.get(op['m'])
        if m is None:
            m = self.make(op)
            if m is None:
                return None
            self.msgs[op['m']] = m
        j = Job(op, op.get('route', m['kind']))
        j.m = m
        j.n = m['posts'] = m.get('posts', 0) + 1
        if j.n > 1:
            self.stat('fault.duplicate')
        j.user = op.get('user', m['user'])
        j.cj, j.raw, j.count = m['cj'], m['raw'], m.get('count')
        if op.get('tamper'):
            self.tamper(j, op['tamper'])
        c = self.cers.get(op.get('ch'))
        j.named = op['id'] if 'id' in op else str(c.id if c is not None and c.id is not None else m['id'])
        if 'id' in op or op.get('ch'):
            self.stat('fault.foreign_challenge_id')
        if 'user' in op:
            self.stat('fault.foreign_username')
        j.form = {'challengeID': j.named, 'username': j.user,
                  'credential': op['body'] if 'body' in op else json.dumps(j.cj)}
        if 'body' in op:
            self.stat('fault.garbage_body')
        for k in op.get('omit') or []:
            j.form.pop(k, None)
        j.path = ROUTES['post', j.kind]
        return j

    def tamper(self, j, ts):
        """The network changes the message on its way."""
        def look(n):
            o = self.msgs.get(n)
            return o and o['msg']
        m2, je = authr.apply_tamper(j.m['msg'], ts, look)
        try:
            j.cj = authr.apply_json(authr.encode(m2), je)
        except TypeError:       # nothing that can be posted
            return
        if j.cj == j.m['cj']:
            return
        self.stat('fault.tampered_message')
        j.tampered = True
        rid = j.cj.get('rawId') if isinstance(j.cj, dict) else None
        if isinstance(rid, str) and rid != authr.encode(m2)['rawId']:
            try:
                plain = base64.b64encode(base64.b64decode(rid)).decode() == rid
            except ValueError:
                plain = False
            if plain:
                j.raw = base64.b64decode(rid)
            else:               # which bytes such a text stands for is not this world's business
                j.cj['rawId'] = authr.encode(m2)['rawId']
                j.raw = m2['rawId']
        else:
            j.raw = m2['rawId']
        if j.kind == 'auth' and len(m2.get('ad', b'')) >= 37:
            j.count = int.from_bytes(m2['ad'][33:37], 'big')

    def make(self, op):
        """A device answers the options of ceremony c."""
        c = self.cers.get(op.get('c'))
        if c is None or c.ch is None:
            return None
        spec = op.get('spec') or {}
        m = {'kind': c.kind, 'c': c.name, 'user': c.user, 'id': c.id}
        if c.kind == 'reg':
            if 'samecid' in op and op['samecid'] in self.creds:
                spec = dict(spec, cid=self.creds[op['samecid']]['cid'].hex())
                self.stat('fault.known_credential_id')
            msg, cred = authr.build_reg(self.seed, op['m'], spec, c.ch, RP, ORIGIN, None)
            cred['zero'] = op.get('zero', False)
            cred.update(user=None, acked=False, maybe=False, count=None, top=0, max=None)
            cred['handle'] = c.handle
            m['cred'] = op['m']
            self.creds[op['m']] = cred
        else:
            cn = op.get('cred')
            cred = self.creds.get(cn)
            if cred is None:
                return None
            if cred['zero']:
                n = 0
            elif 'count' in op:
                n = op['count']
            else:
                n = cred['top'] + op.get('inc', 1)
                cred['top'] = n
            msg = authr.build_auth(self.seed, op['m'], spec, c.ch, RP, ORIGIN, None, cred, n & 0xffffffff,
                                   cred['handle'])
            m['cred'], m['count'] = cn, n & 0xffffffff
        if op.get('forged'):
            self.stat('fault.forged_response')
        m['cj'] = authr.encode(msg)
        m['msg'] = msg
        m['raw'] = msg['rawId']
        return m

    # ------------------------------------------------------------ what clients learn
    def learn(self, j):
        if j.reply is None or j.reply[0] != 200:
            return
        c = Cer(j.op['c'], j.kind, j.user)
        c.lo, c.hi = j.lo, j.hi
        w = 'options for %s (%s of %r): ' % (c.name, j.kind, j.user)

        def bad(what):
            self.violate(['C21'], w + what)
        try:
            d = json.loads(j.reply[1])
            pk = d['creationOptions' if j.kind == 'reg' else 'requestOptions']['publicKey']
            c.id = d['challengeID']
            c.ch = base64.b64decode(pk['challenge'], validate=True)
        except (ValueError, KeyError, TypeError) as e:
            return bad('the client cannot read them (%s)' % type(e).__name__)
        if c.id is None:
            return bad('no challenge id')
        self.cers[c.name] = c
        if len(c.ch) < 16:
            bad('the challenge has only %d bytes' % len(c.ch))
        if c.ch in self.chs:
            bad('the challenge repeats that of ' + self.chs[c.ch])
        self.chs[c.ch] = c.name
        if j.kind == 'reg':
            try:
                u = pk['user']
                c.handle = base64.b64decode(u['id'], validate=True)
                if pk['rp']['id'] != RP:
                    bad('RP id %r' % pk['rp']['id'])
                if u['name'] != j.user:
                    bad('user name %r' % u['name'])
                if -7 not in [p['alg'] for p in pk['pubKeyCredParams']]:
                    bad('ES256 is not offered')
            except (ValueError, KeyError, TypeError) as e:
                return bad('the client cannot read them (%s)' % type(e).__name__)
            if self.handles.setdefault(j.user, c.handle) != c.handle:
                bad('the user handle of %r changed' % j.user)
            for u, h in self.handles.items():
                if u != j.user and h == c.handle:
                    bad('the user handle is that of %r' % u)
        else:
            c.handle = self.handles.get(j.user)
            if pk.get('rpId') != RP:
                bad('RP id %r' % pk.get('rpId'))
            try:
                ids = [base64.b64decode(x['id'], validate=True) for x in pk.get('allowCredentials') or []]
            except (ValueError, KeyError, TypeError):
                return bad('the client cannot read the allowed credentials')
            for n, cr in sorted(self.creds.items()):
                if cr['user'] == j.user and cr['acked'] and cr['cid'] not in ids and cr.get('since', 0) < self.opi:
                    bad('registered credential %s is not allowed' % n)
                if cr['cid'] in ids and cr['user'] not in (None, j.user):
                    bad('credential %s of %r is offered' % (n, cr['user']))
            for i in ids:
                if not any(cr['cid'] == i for cr in self.creds.values()):
                    bad('an unknown credential is offered')

    # ------------------------------------------------------------ database views
    def snapshot(self):
        return {t: {k: dict(r) for k, r in rows.items()} for t, rows in self.tables.items()}

    def cred_rows(self, snap):
        """credential id -> (owner name, key bytes, counter), or None when the table looks different."""
        users, creds = snap.get('user'), snap.get('credential')
        if users is None or creds is None:
            return None
        out = {}
        for k, r in creds.items():
            if not {'id', 'user_id', 'credential_public_key', 'signature_count'} <= set(r):
                return None
            u = users.get(r['user_id'])
            out[r['id']] = (None if u is None else u.get('username'), r['credential_public_key'],
                            r['signature_count'])
        return out

    # ------------------------------------------------------------ oracle
    def reasons(self, j, c, rows):
        """Why the server must not answer this post with success if it names ceremony c."""
        rs = set()
        m = j.m
        own = self.own(j, c)
        if c is None:
            rs.add('unknown')
        for x in ([c] if c is not None else []) + [own]:
            if j.lo - x.hi > TIMEOUT:
                rs.add('late')
            if j.user != x.user:
                rs.add('user')
            if x.wins:
                rs.add('used')
        if 'body' in j.op or j.op.get('omit'):
            rs.add('malformed')
            return rs, False
        if j.kind != m['kind']:
            rs.add('kind')
            return rs, False
        ch = (c or own).ch
        pol = {'challenge': ch, 'origins': ORIGIN, 'tb': None, 'uv': False, 'exts': None, 'rpid': RP}
        cr = self.creds[m['cred']]
        ctx = Ctx({x for k in self.creds.values() for x in k.get('certs') or []})
        if j.kind == 'reg':
            t = judge_reg(j.cj, pol, ctx)
            rs |= t.reasons
            return rs, t.clean
        pol.update(rp=RP, user=self.handle_of(j.user), allow=None, ignore=True)
        held = [(k, k['user']) for k in self.creds.values() if k['cid'] == j.raw and (k['acked'] or k['maybe'])]
        for o in j.peers:       # being registered at the same time
            if not held and o.op['op'] == 'post' and o.m['kind'] == 'reg' and o.raw == j.raw:
                held.append((self.creds[o.m['cred']], o.user))
        rec = None
        if held:
            k, owner = held[0]
            rec = {'key': kd_of(k), 'count': None, 'user': self.handle_of(owner), 'rp': None}
            if owner != j.user:
                rs.add('owner')
        t = judge_auth(j.cj, pol, rec, ctx)
        rs |= t.reasons
        old = (rows or {}).get(j.raw)
        if old is not None and old[2] is not None and j.count is not None and not (
                j.count > old[2] or j.count == old[2] == 0):
            rs.add('counter')
            if j.count < old[2]:
                rs.add('lower')
        return rs, t.clean and cr['cid'] == j.raw

    def handle_of(self, user):
        """The user handle of an account: what its clients were told, or what the database holds when no client
        has ever got the options."""
        if user in self.handles:
            return self.handles[user]
        for r in self.tables.get('user', {}).values():
            if r.get('username') == user:
                return r.get('user_handle')

    def named(self, j):
        """Ceremonies the posted challenge id can denote (ids may be reused), newest last."""
        col = flaskshim.Column(flaskshim.Integer)
        try:
            want = flaskshim.conv(col, j.named)
        except OverflowError:
            return []
        return [c for c in self.cers.values() if c.id == want or str(c.id) == j.named]

    def own(self, j, c):
        """The ceremony a message was made for (what was put together on the way is of no ceremony)."""
        return c if j.tampered and c is not None else self.cers[j.m['c']]

    TAGS = {'counter': 'C17', 'lower': 'C18', 'unknown': 'C16', 'late': 'C16', 'user': 'C17', 'owner': 'C17', 'used': 'C17', 'nocred': 'C17',
            'handle': 'C17', 'challenge': 'C22'}

    def judge(self, jobs, before, conc):
        after = self.snapshot()
        rb, ra = self.cred_rows(before), self.cred_rows(after)
        self.states.add((len(jobs), tuple((j.op['op'], j.kind, j.reply and j.reply[0], j.fired) for j in jobs)))
        posts = [j for j in jobs if j.op['op'] == 'post']
        for j in jobs:
            j.peers = jobs
            if j.hang:
                self.violate(['C18'], '%s did not terminate (%s)' % (j.path, j.hang))
        if self.violations:
            return
        for j in jobs:
            if j.op['op'] == 'issue':
                self.judge_issue(j, conc)
        explained = {}      # cid -> [jobs that may have registered it]
        counted = {}        # cid -> [jobs that may have set its counter]
        for j in posts:
            cs = self.named(j)
            best = None
            for c in cs[::-1] or [None]:
                rs, clean = self.reasons(j, c, rb)
                if best is None or (not rs and best[0]):
                    best = (rs, clean, c)
            j.rs, j.clean, j.c = best
        for j in posts:
            self.judge_post(j, rb, ra, conc, explained, counted)
        for j in posts:
            for c in {id(x): x for x in self.named(j) + [self.own(j, j.c)]}.values():
                c.posts += 1
        # rows
        if ra is None or rb is None:
            self.stat('rows_not_readable')
            return
        for cid in sorted(set(rb) - set(ra)):
            self.violate(['C18'], 'credential %s disappeared from the database' % self.cname(cid))
        for cid in sorted(ra, key=repr):
            o, key, n = ra[cid]
            if cid not in rb:
                js = explained.get(cid)
                if not js:
                    js = [j for j in posts if j.raw == cid]
                    self.blame([j for j in js if j.user == o] or js or posts, 'a credential row %s appeared for %r' % (self.cname(cid), o))
                    for j in js:        # a recorded finding: the credential exists all the same
                        if not self.violations and j.user == o and key_ok(key, self.creds[j.m['cred']]):
                            k = self.registered(j)
                            k['user'], k['maybe'], k['handle'] = o, True, self.handle_of(o)
                            k.setdefault('since', self.opi)
                    continue
                if not any(j.user == o and key_ok(key, self.creds[j.m['cred']]) for j in js):
                    self.violate(['C18'], 'the new row of credential %s does not hold the registered key and account'
                                 % self.cname(cid))
                    continue
                for j in js:
                    if j.user == o and key_ok(key, self.creds[j.m['cred']]):
                        k = self.registered(j)
                        k['user'], k['maybe'] = o, True
                        k.setdefault('since', self.opi)
            else:
                if (o, key) != rb[cid][:2]:
                    self.violate(['C18', 'C17'], 'the account or key of credential %s changed' % self.cname(cid))
                if n != rb[cid][2]:
                    js = counted.get(cid, [])
                    if n not in [j.count for j in js]:
                        mine = [j for j in posts if j.raw == cid]
                        self.blame([j for j in mine if j.count == n] or mine or posts,
                                   'the counter of credential %s went from %r to %r' % (self.cname(cid), rb[cid][2], n))
                for k in self.creds.values():
                    if k['cid'] == cid and k['user'] == o and k['max'] is not None and (n is None or n < k['max']):
                        self.violate(['C18'], 'the counter of credential %s is %r although a login with %d was '
                                              'acknowledged' % (self.cname(cid), n, k['max']),
                                     'concurrent-logins' if self.overlap(jobs, cid) else None)
                        k['max'] = n
        self.log.append((self.opi, [(j.op['op'], j.kind, j.reply and j.reply[0], sorted(j.rs or ()), j.fired)
                                    for j in jobs]))

    def registered(self, j):
        """The credential this registration creates (the message may name another id than the device's own)."""
        k = self.creds[j.m['cred']]
        if j.raw == k['cid']:
            return k
        return self.creds.setdefault(j.m['cred'] + '~' + j.raw.hex(), dict(k, cid=j.raw))

    @staticmethod
    def klass(j):
        """The recorded finding a success belongs to, when nothing else was wrong with the response."""
        if j.rs == {'used'}:
            return 'challenge-reused'
        if j.rs == {'user'} or j.rs == {'user', 'used'}:
            return 'challenge-of-other-user'

    @staticmethod
    def overlap(jobs, cid):
        """Were several logins with one credential handled at the same time?"""
        return sum(j.op['op'] == 'post' and j.kind == 'auth' and j.raw == cid for j in jobs) > 1

    def blame(self, posts, what):
        """A change nobody was entitled to make."""
        tags = set()
        for j in posts:
            tags |= {self.TAGS.get(r, 'C22') for r in j.rs}
        ks = {self.klass(j) for j in posts}
        self.violate(tags or ['C18'], what, ks.pop() if len(ks) == 1 else None)

    def cname(self, cid):
        for n, k in sorted(self.creds.items()):
            if k['cid'] == cid:
                return n
        return repr(cid)

    def judge_issue(self, j, conc):
        if j.reply is not None and j.reply[0] == 200:
            return
        if j.fired or conc or j.op.get('slow'):
            return
        known = any(k['user'] == j.user and k['acked'] for k in self.creds.values())
        if j.kind == 'reg' or known:
            self.violate(['C18', 'C22'] if self.troubled else ['C22'],
                         'the %s request of %r was answered %r' % (j.kind, j.user, j.reply))

    def judge_post(self, j, rb, ra, conc, explained, counted):
        m, c = j.m, j.c
        what = '%s of %s (%s, ceremony %s) naming challenge %r for %r' % (
            {'reg': 'registration', 'auth': 'login'}[j.kind], op_m(j), 'copy %d' % j.n if j.n > 1 else 'first copy',
            m['c'], j.named, j.user)
        ok = j.reply is not None and j.reply[0] == 200
        own = self.own(j, c)
        k = self.creds[m['cred']]
        if j.reply is not None and j.reply[0] == 408 and not j.op.get('slow'):
            if c is not None and all(j.hi - x.lo <= TIMEOUT for x in self.named(j)):
                self.violate(['C16'], '%s was refused as late after %d ms' % (what, j.hi - c.lo))
        if 'late' in j.rs:
            self.stat('fault.late_response')
        if ok:
            self.stat('accepted.' + j.kind)
            if j.rs:
                self.violate({self.TAGS.get(r, 'C22') for r in j.rs},
                             '%s succeeded although: %s' % (what, ', '.join(sorted(j.rs))), self.klass(j))
                if self.violations:
                    return
                if j.kind == 'reg' and 'user' in j.rs:
                    k['handle'] = self.handle_of(j.user)
            for x in {id(c): c, id(own): own}.values():
                x.wins += 1
                if x.wins > 1 and 'used' not in j.rs:
                    self.violate(['C17'], '%s is success number %d of that challenge' % (what, x.wins), 'challenge-reused')
            if self.violations:
                return
            j.rs -= {'user', 'used'}
        if not j.rs and (ok or j.fired or j.reply is None):
            (explained if j.kind == 'reg' else counted).setdefault(j.raw, []).append(j)
        if ok and ra is not None and j.raw is not None:
            row = ra.get(j.raw)
            if row is None:
                self.violate(['C17', 'C18'], '%s succeeded but the credential is not in the database' % what)
                return
            if j.kind == 'reg':
                if rb.get(j.raw) is not None or row[0] != j.user or not key_ok(row[1], k):
                    self.violate(['C17'] + (['C18'] if row[0] != j.user or not key_ok(row[1], k) else []),
                                 '%s succeeded but the credential in the database is another one' % what)
                    return
            elif row[2] is None or row[2] < j.count or (not conc and row[2] != j.count):
                self.violate(['C17'] + (['C18'] if conc or (row[2] or -1) < j.count else []),
                             '%s succeeded with counter %d but the database holds %r' % (what, j.count, row[2]),
                             'concurrent-logins' if self.overlap(j.peers, j.raw) else None)
                if self.violations:
                    return
        if ok:
            if j.kind == 'reg':
                k = self.registered(j)
                k['user'], k['acked'] = j.user, True
                k['since'] = self.opi
            else:
                k['max'] = max(j.count, k['max'] or 0)
            return
        # refusals
        if conc or j.fired or j.reply is None or j.rs or not j.clean:
            return
        if j.tampered or c is not own or c.posts or not (0 <= j.hi - c.lo <= TIMEOUT or j.hi < c.lo):
            return
        if rb is None:
            return
        if j.kind == 'reg':
            if j.raw in rb or k['key'].crv != 'P-256' or k['alg'] != 'ES256':    # not an algorithm the app offered
                return
        else:
            old = rb.get(j.raw)
            if old is None or not k['acked'] and not k['maybe']:
                return
            if old[2] is not None and not (j.count > old[2] or j.count == old[2] == 0):
                return
        tags = ['C22']
        if self.troubled:
            tags.append('C18')
        if self.in_time_probe(j):
            tags = ['C16']
        self.violate(tags, 'honest %s was refused (%r) %d ms after the challenge was issued' % (
            what, j.reply, j.hi - c.lo))

    def in_time_probe(self, j):
        """Would the refused response have been accepted at once?"""
        saved, clock = {t: {k: dict(r) for k, r in rows.items()} for t, rows in self.tables.items()}, self.clock
        self.tables.clear()
        self.tables.update({t: {k: dict(r) for k, r in rows.items()} for t, rows in j.before.items()})
        self.clock = j.c.hi
        env.set_now(self.clock / 1000)
        p = Job({'op': 'post'}, j.kind)
        p.path, p.form = j.path, j.form
        self.jobs = {'main': p}
        self.perform(p, None)
        self.jobs = {}
        self.clock = clock
        self.tables.clear()
        self.tables.update(saved)
        return p.reply is not None and p.reply[0] == 200

    # ------------------------------------------------------------ after the last fault
    def final(self):
        """Everything acknowledged still works, and so do new ceremonies."""
        def go(op):
            self.tick(125)
            self.step_ops([op], None)
            return not self.violations
        rows = self.cred_rows(self.snapshot()) or {}
        for n, k in sorted(self.creds.items()):
            if not (k['acked'] or k['maybe']) or k['user'] is None:
                continue
            if k['acked'] and rows and k['cid'] not in rows:
                return self.violate(['C18'], 'acknowledged credential %s is not in the database' % n)
            self.stat('final_logins')
            c = 'f.' + n
            go({'op': 'issue', 'kind': 'auth', 'user': k['user'], 'c': c})
            if self.violations:
                return self.retag('an acknowledged credential cannot be used: ')
            if c not in self.cers:
                return self.violate(['C18'], 'no login options for %r, owner of registered credential %s' % (
                    k['user'], n))
            if not go({'op': 'post', 'm': 'm.' + c, 'c': c, 'cred': n}):
                return self.retag('credential %s (%s): ' % (n, 'acknowledged' if k['acked'] else 'in the database'))
        for u in sorted(self.plan['world'].get('users') or []):
            c = 'g.' + u
            if not go({'op': 'issue', 'kind': 'reg', 'user': u, 'c': c}):
                return self.retag('at the end: ')
            if not go({'op': 'post', 'm': 'm.' + c, 'c': c}):
                return self.retag('at the end: ')

    def retag(self, pre):
        for v in self.violations:
            v['what'] = pre + v['what']
            if self.troubled or self.stats.get('fault.restart'):
                v['tags'] = sorted(set(v['tags']) | {'C18'})


class Job:
    def __init__(self, op, kind):
        self.op, self.kind = op, kind
        self.reply = self.fired = self.hang = self.m = self.rs = self.c = None
        self.clean = self.tampered = False
        self.cj = self.raw = self.count = None
        self.nsteps = self.nat = 0
        self.lo = self.hi = 0
        self.before = None
        self.peers = []


def op_m(j):
    return j.op['m']


def kd_of(k):
    return {'kty': 'EC2' if k['key'].y is not None else 'OKP', 'alg': k['alg'], 'crv': k['key'].crv, 'x': k['key'].x,
            'y': k['key'].y, 'kid': None, 'ops': None, 'iv': None}


def key_ok(blob, k):
    """Does the stored key hold the device's public key? (unknown encodings are left to the logins)"""
    if not isinstance(blob, bytes):
        return True
    try:
        d, end = cbor.dec(blob, 0)
    except Exception:
        return True
    if end != len(blob) or type(d) is not dict or -2 not in d:
        return True
    return d.get(-2) == k['key'].x and d.get(-3) in (k['key'].y, None)


# ------------------------------------------------------------------ generator
DELAYS = [0, 125, 1000, 20000, 29875, 30125, 45000, 59875, 60000, 60125, 61000, 90000, 3600000, 86400000 * 30]
JUMPS = [-3600000, -60125, -1000, 1000, 30000, 59875, 60000, 60125, 3600000, 86400000 * 400]
IDS = ['0', '-1', '999999', 'abc', '', '1 OR 1=1', '1; DROP TABLE user', '9' * 40, '1.5', 'None', '%s', '\x00']
BODIES = ['', '{}', 'null', '[]', '{"id": 1}', 'x' * 50, '{"id":"AA","rawId":"AA==","type":"public-key","response":{}}']
PROFILES = {
    # late: delays/jumps; cross: relays and duplicates; conc: batches; trouble: crashes and errors; forge: forged messages
    'C16': dict(late=0.6, cross=0.25, conc=0.15, trouble=0.1, forge=0.1),
    'C17': dict(late=0.1, cross=0.6, conc=0.5, trouble=0.15, forge=0.15),
    'C18': dict(late=0.1, cross=0.2, conc=0.35, trouble=0.6, forge=0.05),
    'C21': dict(late=0.1, cross=0.2, conc=0.3, trouble=0.3, forge=0.05),
    'C22': dict(late=0.15, cross=0.3, conc=0.15, trouble=0.15, forge=0.6),
}
USERS = ['alice', 'bob', 'Alice', 'al', '', 'o\'hara', 'z\u00fc\u00e9\u4e2d', 'x' * 70, 'mallory', 'alice ', '0']


class AGen:
    def __init__(self, seed, prof):
        self.r = Rng('app', prof, seed)
        self.p = dict(PROFILES[prof])
        for k in self.p:
            self.p[k] *= self.r.pick([0, 0.5, 1, 1.4])
        self.seed, self.prof = seed, prof
        r = self.r
        n = r.pick([1, 2, 2, 3])
        self.users = r.sample(USERS, n) if r.p(0.5) else USERS[:n]
        self.nc = self.nm = 0
        self.cers = []          # (name, kind, user)
        self.msgs = []          # (name, kind, user, ceremony, cred)
        self.creds = []         # (name, user)
        self.ops = []

    def dt(self):
        r = self.r
        if r.p(self.p['late'] * 0.5):
            return r.pick(DELAYS)
        return r.pick([125, 125, 250, 1000, 5000])

    def fault(self, o):
        r = self.r
        if o['op'] == 'post' and r.p(0.05):
            o['slow'] = r.pick([125, 1000, 2500])
        if not r.p(self.p['trouble'] * 0.5):
            return o
        c = r.randrange(10)
        if c < 4:
            o['fault'] = {'db': r.randrange(1, 14), 'how': 'crash'}
        elif c < 6:
            o['fault'] = {'db': r.randrange(1, 12), 'how': r.pick(['error', 'locked', 'full'])}
            if r.p(0.5):
                o['fault']['at'] = r.pick(['begin', 'insert', 'update', 'commit', 'select'])
                o['fault']['db'] = r.randrange(1, 5 if o['fault']['at'] == 'select' else 3)
        elif c < 8:
            o['fault'] = {'line': r.randrange(1, r.pick([20, 120, 700])), 'exc': 'SimCrash'}
        else:
            o['fault'] = {'line': r.randrange(1, r.pick([20, 120, 700])),
                          'exc': r.pick(['MemoryError', 'KeyboardInterrupt', 'SimKill', 'SystemExit', 'OSError'])}
        return o

    def issue(self, kind, user):
        c = 'c%d' % self.nc
        self.nc += 1
        self.cers.append((c, kind, user))
        o = {'op': 'issue', 'c': c, 'kind': kind, 'user': user}
        if self.r.p(0.03):
            o['slow'] = self.r.pick([125, 5000, 20000])
        return self.fault(o)

    def spec(self, kind, bad):
        r = self.r
        if not bad:
            if r.p(0.35):       # a device with everything a device may do
                s = {}
                if kind == 'reg':
                    Gen.honest_reg(self, s)
                    if s['crv'] != 'P-256' and r.p(0.5):
                        s.update(crv='P-256', alg='ES256')
                        s.pop('keyseed', None)
                else:
                    self.honest_common(s)
                    if r.p(0.3):
                        s['flags'] = 1 | r.pick([0, 4]) | r.pick([0, 0, 2, 8, 16, 32, 58])
                    if r.p(0.3):
                        s['uh'] = 'none'
                return s
            if kind == 'reg':
                s = {}
                if r.p(0.15):
                    s['keyseed'] = 'lz%d' % r.pick(LZ['P-256'])
                if r.p(0.3):
                    s['fmt'] = 'fido-u2f'
                    s['flags'] = 1
                    s['aaguid'] = '00' * 16
                if r.p(0.2):
                    s['cidlen'] = r.pick([1, 16, 32, 64, 255, 1000])
                if r.p(0.3):
                    s['count'] = r.pick([0, 1, 5, 2**31])
                return s
            return {}
        # forgeries and wrong contexts
        w = ['origin', 'rpid', 'noup', 'type', 'chal', 'handle', 'key', 'over', 'tb']
        x = r.pick(w)
        if x == 'origin':
            return {'origin': r.pick(['http://localhost:5001', 'https://localhost:5000', 'http://evil.example',
                                      'http://localhost:5000.evil.example', 'http://localhost', 'null', '',
                                      'http://localhost:50000', 'http://127.0.0.1:5000'])}
        if x == 'rpid':
            return {'rpid': r.pick(['localhost:5000', 'evil.example', '', 'LOCALHOST', 'http://localhost:5000'])}
        if x == 'noup':
            return {'flagxor': 1}
        if x == 'type':
            return {'cd': {'type': r.pick(['webauthn.get', 'webauthn.create', 'payment.get', ''])}}
        if x == 'chal':
            return {'cd': {'challenge': r.pick(['', 'AAAA', authr.b64u(stream(64, self.seed, r.randrange(9)))])}}
        if x == 'tb':
            return {'cd': {'tb': {'status': 'present', 'id': 'AAAA'}}}
        if kind == 'auth':
            if x == 'handle':
                return {'uh': r.pick(['none', '', '00', stream(64, self.seed, 'uh').hex()])}
            if x == 'key':
                return {'sign': {'key': 'mallory'}}
            return {'sign': {'over': r.pick(['raw', 'cdh', 'ad', 'swap', 'nocount', 'noflags', 'double'])}}
        return {'fmt': 'fido-u2f', 'flags': 1, 'aaguid': '00' * 16, 'sign': {'key': 'mallory'}}

    P = {'fmt': 0.35, 'p_rich': 0.7}
    kd_rest = Gen.kd_rest
    EXTN, ext_output, honest_common, bytes_edit = Gen.EXTN, Gen.ext_output, Gen.honest_common, Gen.bytes_edit

    def tampering(self, kind, user):
        """What an attacker or a bad line does to a message."""
        r = self.r
        ts = []
        if kind == 'auth' and r.p(0.06):
            return [{'f': 'sig', 'how': 'append', 'v': r.pick(['00', 'ff', '0000', '00' * 64])}]
        for _ in range(r.pick([1, 1, 1, 2])):
            x = r.randrange(10)
            others = [n for n, k, *_ in self.msgs if k == kind]
            if x == 0 and others:
                ts.append({'f': r.pick(['cdj', 'ad', 'sig', 'sig'] if kind == 'auth' else ['cdj']), 'how': 'splice',
                           'm': r.pick(others)})
            elif x == 1:
                f = 'j:' + r.pick(['id', 'type', 'response.clientDataJSON', 'response', 'rawId'] +
                                  (['response.signature', 'response.authenticatorData', 'response.userHandle']
                                   if kind == 'auth' else ['response.attestationObject']))
                ts.append({'f': f, 'how': r.pick(['drop', 'set', 'trunc', 'ins', 'unpad', 'urlsafe']),
                           'v': r.pick(['', 'AAAA', '!', '\n', '=']), 'n': r.randrange(1, 4), 'at': r.randrange(400)})
                if ts[-1]['how'] == 'set' and r.p(0.6):
                    ts[-1]['v'] = r.pick([None, 0, True, [], {}, 1.5])
            elif kind == 'auth':
                if x == 2:
                    f = {'f': 'uh', 'how': r.pick(['setb', 'flip', 'trunc', 'append', 'zero', 'prepend']),
                         'v': r.pick(['', '00', stream(64, self.seed, 'uh').hex()]), 'at': r.randrange(64), 'n': 0}
                    ts.append(f)
                elif x == 3 and self.creds:
                    regs = [n for n, k, *_ in self.msgs if k == 'reg']
                    ts.append({'f': 'rawId', 'how': 'splice', 'm': r.pick(regs), 'fixid': 1} if r.p(0.7) and regs else
                              {'f': 'rawId', 'how': r.pick(['flip', 'trunc', 'append', 'zero']), 'at': r.randrange(64),
                               'n': 0, 'v': '00', 'fixid': 1})
                elif x == 4:
                    ts.append({'f': 'ad', 'how': 'flip', 'at': r.pick([0, 31, 32, 33, 34, 35, 36]), 'bit': r.randrange(8)})
                elif x == 5 and r.p(0.3):
                    ts.append({'f': 'sig', 'how': 'append', 'v': r.pick(['00', 'ff', '0000', '00' * 64])})
                elif x == 5 and r.p(0.5):
                    ts.append({'f': 'sig', 'how': 'recode', 'v': r.pick(authr.RECODE)})
                elif x == 5:
                    ts.append({'f': 'sig', 'how': 'setb', 'v': r.pick(['', '00', '3000', '3006020100020100',
                                                                     '3006020101020101'])})
                else:
                    ts.append(self.bytes_edit(r.pick(['ad', 'sig', 'sig', 'cdj'])))
            else:
                if x < 5:
                    ts.append(self.bytes_edit('cdj'))
                elif x == 5:
                    ts.append({'f': 'ao.authData', 'how': 'flip', 'at': r.randrange(33), 'bit': r.randrange(8)})
                elif x == 6:
                    ts.append({'f': 'ao.authData', 'how': r.pick(['trunc', 'append']), 'n': r.pick([0, 1, 3, 60]),
                               'v': r.pick(['00', 'a0', 'ff'])})
                elif x == 7:
                    ts.append(dict(self.bytes_edit('ao.attStmt'), k=r.pick(['sig', 'x5c'])))
                elif x == 8:
                    ts.append({'f': 'ao.' + r.pick(['fmt', 'attStmt', 'authData']), 'how': 'drop'})
                else:
                    ts.append({'f': 'attobj', 'how': r.pick(['trunc', 'setb', 'keep']), 'n': r.pick([0, 1, 40]),
                               'v': r.pick(['', 'a0', '80', 'ff'])})
        return ts

    def answer(self, c, kind, user):
        """First delivery of a device's answer."""
        r = self.r
        m = 'm%d' % self.nm
        o = {'op': 'post', 'm': m, 'c': c}
        if kind == 'auth':
            mine = [n for n, u in self.creds if u == user]
            pool = mine if mine and not r.p(self.p['cross'] * 0.3) else [n for n, u in self.creds]
            if not pool:
                return None
            o['cred'] = r.pick(pool)
            x = r.randrange(12)
            if x == 0:
                o['count'] = r.pick([0, 1, 2, 5, 2**32 - 1, 2**31])
            elif x == 1:
                o['inc'] = r.pick([2, 100, 10**6])
        else:
            if r.p(0.25):
                o['zero'] = True
            if self.creds and r.p(self.p['cross'] * 0.15):
                o['samecid'] = r.pick(self.creds)[0]
        self.nm += 1
        bad = r.p(self.p['forge'])
        s = self.spec(kind, bad)
        if s:
            o['spec'] = s
            if bad:
                o['forged'] = True
        if kind == 'reg':
            self.creds.append((m, user))
        if r.p(self.p['forge'] * 0.6):
            o['tamper'] = self.tampering(kind, user)
        self.msgs.append((m, kind, user, c, o.get('cred')))
        self.twist(o, user)
        return self.fault(o)

    def twist(self, o, user):
        r = self.r
        if not r.p(self.p['cross'] * 0.4):
            return
        x = r.randrange(8)
        if x < 3 and any(u != user for u in self.users):
            o['user'] = r.pick([u for u in self.users if u != user])
        elif x < 6 and len(self.cers) > 1:
            o['ch'] = r.pick(self.cers)[0]
            if r.p(0.3):
                o['user'] = r.pick(self.users)
        elif x == 6:
            o['id'] = r.pick(IDS + [str(r.randrange(1, 8))])
        elif r.p(0.4):
            o['body'] = r.pick(BODIES)
        elif r.p(0.5):
            o['omit'] = [r.pick(['challengeID', 'username', 'credential'])]
        else:
            o['route'] = r.pick(['reg', 'auth'])

    def repeat(self):
        """A duplicate or replay of an earlier message."""
        r = self.r
        m, kind, user, c, cred = r.pick(self.msgs)
        o = {'op': 'post', 'm': m, 'c': c}
        if cred:
            o['cred'] = cred
        if r.p(0.5):
            self.twist(o, user)
        if r.p(self.p['forge'] * 0.6):
            o['tamper'] = self.tampering(kind, user)
        return self.fault(o)

    def put(self, o):
        if o is not None:
            o['dt'] = self.dt()
            self.ops.append(o)

    def trouble(self):
        r = self.r
        if r.p(self.p['trouble'] * 0.25):
            self.ops.append({'op': 'restart', 'dt': self.dt()})
        if r.p(self.p['late'] * 0.25):
            self.ops.append({'op': 'clock', 'ms': r.pick(JUMPS), 'dt': 125})

    def hoard(self, kind, u):
        """An answer kept back until its challenge is old is sent in under the name of a fresh one."""
        r = self.r
        self.put(self.issue(kind, u))
        c = self.cers[-1]
        o = self.answer(*c)
        if o is None:
            return
        if r.p(0.4):
            self.put(o)
            o = {k: v for k, v in o.items() if k in ('op', 'm', 'c', 'cred')}
        if r.p(0.3):
            self.trouble()
        i = self.issue(kind, u)
        i['dt'] = r.pick(DELAYS)
        self.ops.append(i)
        f = self.cers[-1]
        if r.p(0.4):
            self.put(self.answer(*f))
        self.put(dict(o, ch=f[0]))

    def batch(self, os_):
        os_ = [o for o in os_ if o is not None]
        if len(os_) < 2:
            for o in os_:
                self.put(o)
            return
        r = self.r
        self.put({'op': 'batch', 'ops': os_, 'sched': {'seed': r.randrange(10**6), 'p': r.pick([0.0, 0.005, 0.03])}})

    def plan(self):
        r = self.r
        pend = []
        if r.p(0.06 if self.prof == "C21" else 0.02):       # a large database
            many = self.users + ['user%d' % i for i in range(r.pick([1, 5, 30]))]
            p, self.p = self.p, {k: 0 for k in self.p}
            for _ in range(r.randrange(15, 60)):
                self.put(self.issue('reg', r.pick(many)))
                self.put(self.answer(*self.cers[-1]))
            self.p = p
            if r.p(0.5):
                self.users = sorted({self.users[0], r.pick(many)})
        for _ in range(r.randrange(3, 14)):
            self.trouble()
            u = r.pick(self.users)
            kind = 'reg' if not self.creds or r.p(0.3) else 'auth'
            if r.p(self.p['conc'] * 0.5):
                x = r.randrange(6)
                if x == 0:
                    v = u if r.p(0.5) else r.pick(self.users)
                    self.batch([self.issue(kind, u), self.issue(r.pick(['reg', 'auth']), v)])
                elif x == 1 and self.msgs:
                    o = self.repeat()
                    self.batch([o, json.loads(json.dumps(o))] if r.p(0.6) else [o, self.repeat()])
                elif x == 2:
                    self.put(self.issue(kind, u))
                    c = self.cers[-1]
                    o = self.answer(*c)
                    if o:
                        o2 = json.loads(json.dumps(o))
                        o2.pop('fault', None)
                        if r.p(0.2) and len(self.users) > 1:
                            o2['user'] = r.pick(self.users)
                        os_ = [o, o2]
                        if r.p(0.2):
                            os_.append(json.loads(json.dumps(o2)))
                        elif r.p(0.3):
                            os_.append(self.issue(r.pick(['reg', 'auth']), r.pick(self.users)))
                        self.batch(os_)
                else:
                    v = u if r.p(0.6) else r.pick(self.users)
                    self.put(self.issue(kind, u))
                    a = self.cers[-1]
                    self.put(self.issue(kind if r.p(0.8) else 'reg', v))
                    b = self.cers[-1]
                    oa, ob = self.answer(*a), self.answer(*b)
                    if oa and ob and 'cred' in oa and 'cred' in ob and u == v and r.p(0.7):
                        ob['cred'] = oa['cred']
                    oc = self.repeat() if r.p(0.2) else None
                    self.batch([oa, ob, oc])
                continue
            if r.p(self.p['late'] * 0.12):
                self.hoard(kind, u)
                continue
            if pend and r.p(0.4):
                self.put(self.answer(*pend.pop(r.randrange(len(pend)))))
                continue
            self.put(self.issue(kind, u))
            c = self.cers[-1]
            if r.p(0.12):
                pend.append(c)
                continue
            self.put(self.answer(*c))
            if self.msgs and r.p(self.p['cross'] * 0.5):
                self.trouble()
                self.put(self.repeat())
        self.ops.append({'op': 'restart'} if r.p(0.7) else {'op': 'clock', 'ms': 0})
        self.ops.append({'op': 'final'})
        return {'kind': 'app', 'seed': 's%s' % self.seed, 'ops': self.ops,
                'world': {'users': sorted(set(self.users)), 't0': r.pick([0, 125, 10**9, 999875])}}


def make(seed, prof):
    return AGen(seed, prof).plan()
