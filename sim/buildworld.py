"""C14: options travel from shared builders over a wire to clients. Real builders, types and jsonify; simulated
RP threads sharing builders and objects, interrupts, a wire with lost and duplicated deliveries, and clients."""
import base64
import json

from sim import env, sched
from sim.core import H, Rng, stream

ATT = ['none', 'indirect', 'direct']
UVR = ['required', 'preferred', 'discouraged']
MED = ['silent', 'optional', 'required']
TRANS = ['usb', 'nfc', 'ble', 'internal']
CCO_SET = ('rp', 'pub_key_cred_params', 'timeout', 'authenticator_selection', 'extensions', 'attestation',
           'exclude_credentials')
CRO_SET = ('mediation', 'timeout', 'rp_id', 'extensions', 'user_verification')
DEFAULTS = {'cco': {'attestation': 'none'}, 'cro': {'mediation': 'optional', 'user_verification': 'preferred'}}
STD = {'display_name': 'displayName', 'pub_key_cred_params': 'pubKeyCredParams',
       'authenticator_selection': 'authenticatorSelection', 'exclude_credentials': 'excludeCredentials',
       'authenticator_attachment': 'authenticatorAttachment', 'require_resident_key': 'requireResidentKey',
       'user_verification': 'userVerification', 'rp_id': 'rpId', 'allow_credentials': 'allowCredentials',
       'tx_auth_simple': 'txAuthSimple', 'tx_auth_generic': 'txAuthGeneric', 'content_type': 'contentType',
       'authn_sel': 'authnSel', 'biometric_perf_bounds': 'biometricPerfBounds', 'public_key': 'publicKey'}


def model(v, names=True):
    """Spec value -> the value a client must see (bytes stay bytes; None members are left out)."""
    if isinstance(v, dict):
        if '$h' in v:
            return bytes.fromhex(v['$h'])
        return {(STD.get(k, k) if names else k): model(x, names) for k, x in v.items()
                if x is not None and not k.startswith('_')}
    if isinstance(v, (list, tuple)):
        return [model(x, names) for x in v]
    return v


def received(v, m):
    """Decode what the client got where the model holds bytes; anything undecodable stays as it is."""
    if isinstance(m, bytes) and isinstance(v, str):
        try:
            return base64.b64decode(v, validate=True)
        except ValueError:
            return v
    if isinstance(v, dict) and isinstance(m, dict):
        return {k: received(x, m.get(k)) for k, x in v.items()}
    if isinstance(v, list) and isinstance(m, list):
        return [received(x, m[i] if i < len(m) else None) for i, x in enumerate(v)]
    return v


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def diff(a, b, path=''):
    """First difference between expected a and received b, as text."""
    if type(a) is not type(b):
        return '%s: expected %r, client got %r' % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in b:
                return '%s/%s is missing (expected %r)' % (path, k, a[k])
            if k not in a:
                return '%s/%s=%r was never set' % (path, k, b[k])
            d = diff(a[k], b[k], path + '/' + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s has %d entries, expected %d' % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    return None if a == b else '%s: expected %r, client got %r' % (path, a, b)


def snap(o, depth=0):
    """Structural snapshot of a supplied object."""
    if depth > 8:
        return '...'
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(x, depth + 1) for x in o])
    if isinstance(o, dict):
        return ('dict', [(k, snap(x, depth + 1)) for k, x in o.items()])
    import enum
    if isinstance(o, enum.Enum):
        return (type(o).__name__, o.value)
    if hasattr(o, '__dict__'):
        return (type(o).__name__, [(k, snap(x, depth + 1)) for k, x in sorted(vars(o).items())
                                   if not k.startswith('__')])
    return (type(o).__name__, o)


class BuildWorld:
    def __init__(self, plan, cover=None):
        self.plan, self.seed, self.cover = plan, plan['seed'], cover
        self.pool = plan['world'].get('pool', {})       # named shared values: name -> [kind, spec]
        self.objs = {}          # pool name -> library object (supplied by the RP, shared)
        self.snaps = {}
        self.builders = {}      # name -> (kind, library builder, model dict)
        self.options = {}       # name -> (library options, model)
        self.sent = {}
        self.violations, self.stats, self.states, self.log = [], {}, set(), []
        self.switches, self.scheds = {}, set()
        self.ncalls, self.t, self.mark, self.next = 0, 0, None, 0

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violate(self, what):
        self.violations.append({'tags': ['C14'], 'what': what, 'op': self.opi, 'call': None})

    def result(self):
        return {'violations': self.violations, 'stats': self.stats, 'states': self.states, 'log': self.log,
                'solo': [], 'cover': self.cover or set(), 'switches': self.switches, 'calls': self.ncalls,
                't': self.t, 'sched': self.scheds}

    def advance(self, dt):
        self.t += dt
        env.set_now(self.t)

    def run(self):
        env.start(self.seed)
        sched.begin()
        env.on_advance(self.advance)
        for i, op in enumerate(self.plan['ops']):
            self.opi = i
            self.t += 0.02
            env.set_now(self.t)
            if op['op'] == 'batch':
                self.batch(op)
            else:
                r = self.do(op)
                sched.MAIN.drain()
                self.settle(op, r)
            if not self.violations:
                self.audit()
            if self.violations:
                return 'end'
        # once everything has happened, every builder and every option still says what the model says
        self.opi = len(self.plan['ops']) - 1
        for n in sorted(self.builders):
            o = {'op': 'build', 'b': n, 'o': '~' + n, 'user': {'name': 'probe', 'icon': None, 'id': {'$h': '00'},
                 'display_name': 'p'}, 'challenge': {'$h': 'ff' * 8}}
            self.settle(o, self.do(o))
        for n in sorted(self.options):
            o = {'op': 'send', 'o': n}
            self.settle(o, self.do(o))
            if self.violations:
                break
        if not self.violations:
            self.audit()
        return 'end'

    def audit(self):
        for n, s in self.snaps.items():
            now = snap(self.objs[n])
            if now != s:
                return self.violate('the supplied object %s was changed: %s' % (n, self.where(s, now)))

    @staticmethod
    def where(a, b):
        a, b = repr(a), repr(b)
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return '...%s became ...%s' % (a[max(0, i - 30):i + 40], b[max(0, i - 30):i + 40])

    # ---------------------------------------------------------------- library values from specs
    def value(self, kind, spec):
        """kind: rp user params sel ext att excl med uv timeout rpid -> library object (or None)"""
        from sim.repo import types as T
        if spec is None:
            return None
        if isinstance(spec, dict) and '$ref' in spec:
            n = spec['$ref']
            if n not in self.objs:
                k, s = self.pool[n]
                self.objs[n] = self.value(k, s)
                self.snaps[n] = snap(self.objs[n])
            return self.objs[n]
        b = lambda x: bytes.fromhex(x['$h'])     # noqa: E731
        if kind == 'rp':
            return T.PublicKeyCredentialRpEntity(name=spec['name'], icon=spec.get('icon'), id=spec['id'])
        if kind == 'user':
            return T.PublicKeyCredentialUserEntity(name=spec['name'], icon=spec.get('icon'), id=b(spec['id']),
                                                   display_name=spec['display_name'])
        if kind == 'pub_key_cred_params':
            f = list if not spec[:1] or not spec[0].get('_tuple') else tuple
            return f(T.PublicKeyCredentialParameters(
                type=T.PublicKeyCredentialType(p['type']),
                alg=T.COSEAlgorithmIdentifier(p['alg'])) for p in spec)
        if kind in ('exclude_credentials', 'allow_credentials'):
            f = list if not spec[:1] or not spec[0].get('_tuple') else tuple
            return f(T.PublicKeyCredentialDescriptor(
                type=T.PublicKeyCredentialType(p['type']), id=b(p['id']),
                transports=None if p.get('transports') is None else
                [T.AuthenticatorTransport(x) for x in p['transports']]) for p in spec)
        if kind == 'authenticator_selection':
            return T.AuthenticatorSelectionCriteria(
                authenticator_attachment=None if spec.get('authenticator_attachment') is None else
                T.AuthenticatorAttachment(spec['authenticator_attachment']),
                require_resident_key=spec['require_resident_key'],
                user_verification=T.UserVerificationRequirement(spec['user_verification']))
        if kind == 'extensions':
            kw = dict(spec)
            if kw.get('tx_auth_generic') is not None:
                g = kw['tx_auth_generic']
                kw['tx_auth_generic'] = T.TxAuthGenericArg(content_type=g['content_type'], content=b(g['content']))
            if kw.get('authn_sel') is not None:
                kw['authn_sel'] = [b(x) for x in kw['authn_sel']]
            if kw.get('biometric_perf_bounds') is not None:
                kw['biometric_perf_bounds'] = T.AuthenticatorBiometricPerfBounds(**kw['biometric_perf_bounds'])
            return T.AuthenticationExtensionsClientInputs(**kw)
        if kind == 'attestation':
            return T.AttestationConveyancePreference(spec)
        if kind == 'mediation':
            return T.CredentialMediationRequirement(spec)
        if kind == 'user_verification':
            return T.UserVerificationRequirement(spec)
        if isinstance(spec, dict) and '$h' in spec:
            return b(spec)
        return spec

    def deref(self, spec):
        return self.pool[spec['$ref']][1] if isinstance(spec, dict) and '$ref' in spec else spec

    # ---------------------------------------------------------------- operations
    def lib(self, fn, intr=None, scheduler=None):
        from sim.repo import WebAuthnRPError
        g = sched.Guard(interrupt=intr, sched=sched.RUNNING, cover=self.cover)
        self.ncalls += 1
        if self.mark:
            self.mark(self.opi, 1)
        try:
            out = ('ok', g.call(fn))
        except (sched.SimHang, sched.SimDeadlock):
            out = ('hang',)
        except BaseException as e:    # noqa: B902
            if g.fired is not None and isinstance(e, sched.INTERRUPTS[intr[1]]):
                out = ('intr',)
            elif isinstance(e, WebAuthnRPError):
                out = ('lib', type(e).__name__)
            else:
                out = ('foreign', type(e).__name__)
        if self.mark:
            self.mark(self.opi, 0)
        if g.fired is not None:
            self.stat('fault.interrupt.' + intr[1])
        return out

    def do(self, op, scheduler=None):
        from sim.repo import builders, converters
        k = op['op']
        intr = op.get('intr')
        if k == 'new':
            cls = builders.CredentialCreationOptionsBuilder if op['kind'] == 'cco' else \
                builders.CredentialRequestOptionsBuilder
            kw = {n: self.value(n, s) for n, s in op['set'].items()}
            m = dict(DEFAULTS[op['kind']])
            m.update({n: self.deref(s) for n, s in op['set'].items()})
            return self.lib(lambda: cls(**kw), intr, scheduler) + ((op['kind'], m),)
        if k == 'derive':
            src = self.builders.get(op['b'])
            if src is None:
                return ('skip',)
            kind, bld, m = src
            m = dict(m)
            ok = CCO_SET if kind == 'cco' else CRO_SET
            steps = [(n, s) for n, s in op['set'] if n in ok and not (
                s is None and n in ('rp', 'pub_key_cred_params', 'attestation', 'mediation'))]
            vals = [(n, self.value(n, s)) for n, s in steps]
            for n, s in steps:
                m[n] = self.deref(s)

            def fn():
                x = bld
                for n, v in vals:
                    x = getattr(x, n)(v)
                return x
            return self.lib(fn, intr, scheduler) + ((kind, m),)
        if k == 'build':
            src = self.builders.get(op['b'])
            if src is None:
                return ('skip',)
            kind, bld, m = src
            ch = bytes.fromhex(op['challenge']['$h'])
            if kind == 'cco':
                user = self.value('user', op['user'])
                pk = {'user': self.deref(op['user']), 'challenge': op['challenge']}
                pk.update(m)
                om = {'public_key': pk}

                def fn():
                    return bld.build(user=user, challenge=ch)
            else:
                allow = self.value('allow_credentials', op.get('allow'))
                pk = {'challenge': op['challenge'], 'allow_credentials': self.deref(op.get('allow'))}
                pk.update({a: b for a, b in m.items() if a != 'mediation'})
                om = {'mediation': m.get('mediation'), 'public_key': pk}

                def fn():
                    if op.get('allow') is None:
                        return bld.build(challenge=ch)
                    return bld.build(challenge=ch, allow_credentials=allow)
            return self.lib(fn, intr, scheduler) + ((kind, om, m),)
        if k == 'send':
            src = self.options.get(op['o'])
            if src is None:
                return ('skip',)
            names = not op.get('raw')
            before = snap(src[0])
            r = self.lib(lambda: converters.jsonify(src[0]) if names else converters.jsonify(src[0], False),
                         intr, scheduler)
            return r + ((src[1], names, before, snap(src[0])),)
        return ('skip',)

    def settle(self, op, r):
        k = op['op']
        if r[0] in ('skip',):
            return
        self.log.append((k, op.get('b') or op.get('o'), r[0]))
        self.states.add((k, r[0], op.get('kind'), tuple(sorted(x[0] for x in op.get('set', []))) if k == 'derive'
                         else len(op.get('set', {}))))
        if r[0] == 'hang':
            return self.violate('%s did not terminate' % k)
        if r[0] == 'intr':
            return
        if r[0] in ('lib', 'foreign') and k != 'build':
            return self.violate('%s failed with %s' % ({'new': 'making a builder', 'derive': 'deriving a builder',
                                                       'send': 'converting options'}[k], r[1]))
        if k == 'new':
            self.builders[op['b']] = (r[-1][0], r[1], r[-1][1])
        elif k == 'derive':
            src = self.builders.get(op['b'])
            if src is not None and r[1] is src[1] and op['set']:
                pass        # the audit decides: sharing is only wrong when it shows
            self.builders[op['n']] = (r[-1][0], r[1], r[-1][1])
        elif k == 'build':
            kind, om, m = r[-1]
            need = ('rp', 'pub_key_cred_params', 'attestation') if kind == 'cco' else ('mediation',)
            missing = [n for n in need if m.get(n) is None]
            if r[0] == 'ok':
                if missing:
                    return self.violate('options were built without %s' % missing[0])
                self.options[op['o']] = (r[1], om)
            elif not missing:
                return self.violate('building options failed with %s' % r[1])
        elif k == 'send':
            om, names, before, after = r[-1]
            if before != after:
                return self.violate('converting options changed them: ' + self.where(before, after))
            try:
                wire = json.dumps(r[1])
            except (TypeError, ValueError) as e:
                return self.violate('the converted options are not JSON: %s' % e)
            m = model(om, names)
            for copy_ in range(1 + op.get('dup', 0)):
                self.stat('fault.net.duplicate', copy_)
                if op.get('lost'):
                    self.stat('fault.net.lost')
                    break
                got = received(json.loads(wire), m)
                d = diff(m, got)
                if d:
                    return self.violate('options reached the client wrong: ' + d)

    def batch(self, op):
        subs = [o for o in op['ops'] if o['op'] in ('new', 'derive', 'build', 'send')]
        if not subs:
            return
        # supplied objects exist before the threads start
        for o in subs:
            for kk, v in list(o.items()) + (list(o['set'].items()) if isinstance(o.get('set'), dict) else
                                            o.get('set', [])):
                if isinstance(v, dict) and '$ref' in v:
                    self.value(None, v)
        sc = op.get('sched') or {}
        if 'explicit' in sc:
            ch = sched.explicit_chooser(sc['explicit'])
        else:
            ch = sched.seeded_chooser(Rng(self.seed, 'sched', sc.get('seed', 0)), sc.get('p', 0.05))
        holder = {}
        s = sched.Scheduler([(lambda o=o: self.do(o, holder['s'])) for o in subs], ch)
        holder['s'] = s
        res = s.run()
        sched.MAIN.drain()
        self.stat('batches')
        self.stat('switches', len(s.switches))
        self.switches[self.opi] = s.switches
        self.scheds.add(H(repr([o['op'] for o in subs]), repr(s.switches))[:8].hex())
        for o, x in zip(subs, res):
            if x[0] == 'exc':
                if isinstance(x[1], (sched.SimDeadlock, sched.SimHang)):
                    return self.violate('%s did not terminate' % o['op'])
                raise x[1]
            self.settle(o, x[1])
            if self.violations:
                return


def make(seed, prof):
    r = Rng(seed, 'build')

    def hx(*lens):
        n = r.pick(lens)
        return {'$h': stream(n, 'bytes', seed, r.randrange(10**9)).hex() if not r.p(0.1) else
                r.pick(['00', 'ff', 'fb']) * n}
    text = ['', 'a', 'x' * 300, 'Zoe\u0308', ' padded ', 'tab\tand\nline', '\u212b', 'MiXeD', '\0', '<b>&amp;', '\U0001f511', 'a_b', 'Example', '名前', 'x y', 'snake_case_name', '0', 'é"\\', 'None', 'user_name']

    def opt(v, p=0.5):
        return v() if r.p(p) else None

    def g_rp():
        return {'name': r.pick(text), 'icon': opt(lambda: r.pick(['', 'https://example.com/i.png']), 0.3),
                'id': r.pick(['example.com', '', 'localhost', 'a.b.co'])}

    def g_user():
        return {'name': r.pick(text), 'icon': opt(lambda: r.pick(['', 'data:,x']), 0.3), 'id': hx(1, 0, 16, 64),
                'display_name': r.pick(text)}

    def size(n):
        return r.randrange(6, 150) if r.p(0.04) else r.pick([0, 1, 1, 2, n])

    def mark_tuple(xs):
        if xs and r.p(0.3):
            xs[0]['_tuple'] = True
        return xs

    def g_params():
        return mark_tuple([{'type': 'public-key', 'alg': r.pick([-7, -35, -36, -8, 'ES256', 'EdDSA', 'ES512'])}
                           for _ in range(size(4))])

    def g_descs():
        return mark_tuple([{'type': 'public-key', 'id': hx(0, 1, 16, 64, 200), 'transports': opt(
            lambda: [r.pick(TRANS) for _ in range(r.randrange(4))], 0.6)} for _ in range(size(5))])

    def g_sel():
        return {'authenticator_attachment': opt(lambda: r.pick(['platform', 'cross-platform'])),
                'require_resident_key': r.p(0.5), 'user_verification': r.pick(UVR)}

    def g_ext():
        d = {}
        if r.p(0.4):
            d['appid'] = r.pick(['', 'https://example.com/appid'])
        if r.p(0.3):
            d['tx_auth_simple'] = r.pick(text)
        if r.p(0.3):
            d['tx_auth_generic'] = {'content_type': r.pick(['', 'image/png']), 'content': hx(0, 1, 40)}
        if r.p(0.3):
            d['authn_sel'] = [hx(16) for _ in range(r.randrange(3))]
        for n in ('exts', 'uvi', 'loc', 'uvm'):
            if r.p(0.3):
                d[n] = r.p(0.5)
        if r.p(0.3):
            d['biometric_perf_bounds'] = {'FAR': r.pick([0.0, 0.5, 1e-9]), 'FRR': r.pick([0.0, 1.0, 0.25])}
        return d

    gens = {'rp': g_rp, 'pub_key_cred_params': g_params, 'timeout': lambda: r.pick([0, 1, 60000, 2**31, None]),
            'authenticator_selection': lambda: opt(g_sel, 0.85), 'extensions': lambda: opt(g_ext, 0.85),
            'attestation': lambda: r.pick(ATT), 'exclude_credentials': lambda: opt(g_descs, 0.85),
            'mediation': lambda: r.pick(MED), 'rp_id': lambda: r.pick(['example.com', '', None]),
            'user_verification': lambda: r.pick(UVR + [None]), 'user': g_user, 'allow_credentials': g_descs}
    shareable = ('rp', 'pub_key_cred_params', 'authenticator_selection', 'extensions', 'exclude_credentials', 'user',
                 'allow_credentials')
    pool = {}
    for i in range(r.randrange(2, 8)):
        k = r.pick(shareable)
        v = gens[k]()
        if v is not None:
            pool['p%d' % i] = [k, v]
    p_share = r.pick([0.2, 0.6, 0.9])

    def val(k):
        c = [n for n in sorted(pool) if pool[n][0] == k]
        if c and r.p(p_share):
            return {'$ref': r.pick(c)}
        return gens[k]()
    p_batch, p_intr = r.pick([0, 0.3, 0.7]), r.pick([0, 0, 0.15])
    blds, opts, ops = {}, [], []
    cnt = [0]

    def nm(p):
        cnt[0] += 1
        return p + str(cnt[0])

    def one():
        c = r.wpick([(2 if len(blds) < 4 else 0.3, 'new'), (4 if blds else 0, 'derive'), (5 if blds else 0, 'build'),
                     (4 if opts else 0, 'send')])
        if c == 'new':
            kind = r.pick(['cco', 'cro'])
            st = {}
            for k in CCO_SET if kind == 'cco' else CRO_SET:
                must = k in ('rp', 'pub_key_cred_params') and r.p(0.8)
                if must or r.p(0.4):
                    st[k] = val(k)
            o = {'op': 'new', 'kind': kind, 'b': nm('b'), 'set': st}
            nb.append((o['b'], kind))
        elif c == 'derive':
            b = r.pick(sorted(blds))
            ks = CCO_SET if blds[b] == 'cco' else CRO_SET
            o = {'op': 'derive', 'b': b, 'n': nm('b'), 'set': [[k, val(k)] for k in
                                                             [r.pick(ks) for _ in range(r.pick([1, 1, 2, 3]))]]}
            nb.append((o['n'], blds[b]))
        elif c == 'build':
            b = r.pick(sorted(blds))
            o = {'op': 'build', 'b': b, 'o': nm('o'), 'challenge': hx(0, 1, 16, 31, 32, 64)}
            if blds[b] == 'cco':
                o['user'] = val('user')
            elif r.p(0.6):
                o['allow'] = val('allow_credentials')
            no.append(o['o'])
        else:
            o = {'op': 'send', 'o': r.pick(opts)}
            if r.p(0.2):
                o['dup'] = 1
            if r.p(0.1):
                o['lost'] = True
            if r.p(0.15):
                o['raw'] = True
        if r.p(p_intr):
            o['intr'] = [r.randrange(1, 80), r.pick(['MemoryError', 'KeyboardInterrupt', 'SimKill', 'RecursionError'])]
        return o
    for _ in range(r.randrange(6, 30)):
        nb, no = [], []
        if blds and r.p(p_batch):
            ops.append({'op': 'batch', 'ops': [one() for _ in range(r.pick([2, 2, 3, 4]))],
                        'sched': {'seed': r.randrange(10**6), 'p': r.pick([0.02, 0.1, 0.3])}})
        else:
            ops.append(one())
        blds.update(nb)
        opts.extend(no)
    return {'kind': 'build', 'seed': 's%s' % seed, 'ops': ops, 'world': {'pool': pool}}
