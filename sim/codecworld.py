"""C13: public keys travel through durable storage. Real cose_key / parse_cose_key / verify; simulated
authenticators, durable blob storage with torn, lost, corrupted and crossed writes, restarts,
interrupts and threads."""
from sim import authr, cbor, env, sched
from sim.core import H, Rng, stream
from sim.crypto import key, low_order_inside, ref_public, ref_verify
from sim.gen import KTYPES, LZ
from sim.world import _OPS, build_cpk, key_view, same

OPN = sorted(_OPS)
DAMAGE = ('torn', 'bitflip', 'span', 'zero_tail', 'append', 'insert', 'delete', 'empty')


class CodecWorld:
    def __init__(self, plan, cover=None):
        self.plan = plan
        self.seed = plan['seed']
        self.cover = cover
        self.blobs = {}         # slot -> durable bytes
        self.truth = {}         # slot -> (key name, alg, semantic key) or None when damaged
        self.keys = {}          # key name -> dict
        self.violations, self.stats, self.states, self.log = [], {}, set(), []
        self.switches, self.scheds = {}, set()
        self.next = self.ncalls = 0
        self.t = 0
        self.mark = None
        self.live = {}          # in-memory key objects (lost at a restart)
        self.last_good = {}     # slot -> (key, semantic) of an earlier complete write

    def __getstate__(self):
        d = dict(self.__dict__)
        d['live'], d['mark'] = {}, None
        return d

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violate(self, what):
        self.violations.append({'tags': ['C13'], 'what': what, 'op': self.opi, 'call': None})

    def advance(self, dt):
        self.t += dt
        env.set_now(self.t)

    def run(self):
        env.start(self.seed)
        sched.begin()
        env.on_advance(self.advance)
        ops = self.plan['ops']
        while self.next < len(ops):
            self.opi = self.next
            op = ops[self.next]
            self.next += 1
            if op['op'] == 'restart':
                self.stat('fault.restart')
                return 'restart'
            self.t += 0.05
            env.set_now(self.t)
            if op['op'] == 'batch':
                self.batch(op)
            else:
                r = self.do(op)
                sched.MAIN.drain()
                self.settle(op, r)
            if self.violations:
                break
        return 'end'

    def result(self):
        return {'violations': self.violations, 'stats': self.stats, 'states': self.states, 'log': self.log,
                'solo': [], 'cover': self.cover or set(), 'switches': self.switches, 'calls': self.ncalls,
                't': self.t, 'sched': self.scheds}

    # ------------------------------------------------------------ running the code under test
    def lib(self, fn, intr=None, scheduler=None):
        """-> ('ok', value) | ('lib', name) | ('foreign', name) | ('intr', name) | ('hang',)"""
        from sim.repo import WebAuthnRPError
        g = sched.Guard(interrupt=intr, sched=sched.RUNNING, cover=self.cover)
        self.ncalls += 1
        if self.mark:
            self.mark(self.opi, 1)
        try:
            out = ('ok', g.call(fn))
        except (sched.SimHang, sched.SimDeadlock):
            out = ('hang',)
        except BaseException as e:    # noqa: B902
            if g.fired is not None and isinstance(e, sched.INTERRUPTS[intr[1]]):
                out = ('intr', type(e).__name__)
            elif isinstance(e, WebAuthnRPError):
                out = ('lib', type(e).__name__)
            else:
                out = ('foreign', type(e).__name__)
        if self.mark:
            self.mark(self.opi, 0)
        if g.fired is not None:
            self.stat('fault.interrupt.' + intr[1])
        return out

    def material(self, name, spec):
        """The key pair and the semantic content of a key."""
        k = self.keys.get(name)
        if k is None:
            kp = key(spec['crv'], spec.get('keyseed', '%s|%s' % (self.seed, name)))
            ops = spec.get('ops')
            kd = {'kty': 'EC2' if kp.y is not None else 'OKP', 'alg': spec['alg'], 'crv': spec['crv'], 'x': kp.x,
                  'y': kp.y, 'kid': None if spec.get('kid') is None else bytes.fromhex(spec['kid']),
                  'ops': ops, 'iv': None if spec.get('iv') is None else bytes.fromhex(spec['iv'])}
            k = self.keys[name] = {'kp': kp, 'kd': kd, 'spec': spec}
        return k

    def do(self, op, scheduler=None):
        """The part of an operation that runs library code (possibly in a simulated thread)."""
        from sim.repo import converters, parsers, types as T, verifiers
        intr = op.get('intr')
        kind = op['op']
        if kind == 'make':
            k = self.material(op['k'], op['spec'])
            kd, spec = k['kd'], k['spec']
            if op.get('via') == 'object':
                def fn():
                    nm = spec.get('names', '')
                    o = build_cpk(kd, None)
                    C = {'EC2': T.EC2CredentialPublicKey, 'OKP': T.OKPCredentialPublicKey}[kd['kty']]
                    kw = dict(kty=(T.COSEKeyType.Name if 't' in nm else T.COSEKeyType.Value)[kd['kty']], kid=o.kid,
                              alg=(T.COSEAlgorithmIdentifier.Name if 'a' in nm else
                                   T.COSEAlgorithmIdentifier.Value)[kd['alg'].upper()],
                              key_ops=o.key_ops if 'o' not in nm or kd['ops'] is None else
                              [T.COSEKeyOperation.Name[_OPS[x]] for x in kd['ops']],
                              base_IV=o.base_IV, x=kd['x'])
                    if kd['kty'] == 'EC2':
                        crv = (T.EC2Curve.Name if 'c' in nm else T.EC2Curve.Value)[kd['crv'].replace('-', '_')]
                        return C(crv=crv, y=kd['y'], **kw)
                    return C(crv=(T.OKPCurve.Name if 'c' in nm else T.OKPCurve.Value)[kd['crv'].upper()], **kw)
                return self.lib(fn, intr, scheduler)
            d = authr.cose_dict(k['kp'], {'alg': kd['alg'], 'names': spec.get('names', ''),
                                          'keyorder': spec.get('order')})
            if kd['kid'] is not None:
                d[2] = kd['kid']
            if kd['ops'] is not None:
                d[4] = [o if 'o' in spec.get('names', '') else 1 + list(_OPS).index(o) for o in kd['ops']]
            if kd['iv'] is not None:
                d[5] = kd['iv']
            raw = cbor.enc(d)
            return self.lib(lambda: parsers.parse_cose_key(raw if op.get('via') == 'bytes' else d), intr, scheduler)
        if kind == 'store':
            obj = self.live.get(op['k'])
            if obj is None:
                return ('skip',)
            before = key_view(obj)
            r = self.lib(lambda: converters.cose_key(obj), intr, scheduler)
            return r + (before, key_view(obj))
        if kind == 'load':
            b = self.blobs.get(op['slot'])
            if b is None:
                return ('skip',)
            snap = (self.truth.get(op['slot']), self.last_good.get(op['slot'], ()), b)
            return self.lib(lambda: parsers.parse_cose_key(b), intr, scheduler) + (snap,)
        if kind == 'use':
            b = self.blobs.get(op['slot'])
            if b is None:
                return ('skip',)
            sigs = self.signatures(op, b)
            snap = (self.truth.get(op['slot']), self.last_good.get(op['slot'], ()), b)
            out = []

            def fn():
                for name, s, m in sigs:
                    try:
                        verifiers.verify(parsers.parse_cose_key(b), s, m)
                        out.append((name, True))
                    except Exception as e:
                        from sim.repo import WebAuthnRPError
                        out.append((name, type(e).__name__ if isinstance(e, WebAuthnRPError)
                                    else '!' + type(e).__name__))
                        if type(e).__name__ in sched.INTERRUPTS and str(e).startswith('injected'):
                            raise
            r = self.lib(fn, intr, scheduler)
            return (r[0], out) + r[1:] + (snap,)
        return ('skip',)

    def signatures(self, op, blob):
        """Signatures by the owner, by everybody else, and over other data."""
        m = H('msg', self.seed, op.get('n', 0)) * 2
        out = []
        t = self.truth.get(op['slot'])
        good = self.last_good.get(op['slot'], ())
        names = sorted(self.keys)
        others = [n for n in names if n not in good]
        i = op.get('n', 0)
        pick = list(dict.fromkeys(list(good[-2:]) + ([others[i % len(others)]] if others else [])))
        for n in pick:
            k = self.keys[n]
            a = k['kd']['alg']
            out.append(('by:' + n, k['kp'].sign(m, a), m))
        if t:
            k = self.keys[t[0]]
            if k['kp'].y is not None:
                other = {'ES256': 'ES384', 'ES384': 'ES512', 'ES512': 'ES256'}[k['kd']['alg']]
                out.append(('wronghash', k['kp'].sign(m, other), m))
            out.append(('wrongdata', k['kp'].sign(m + b'x', k['kd']['alg']), m))
        out.append(('empty', b'', m))
        out.append(('zero', b'\0' * 64, m))
        return out

    def settle(self, op, r):
        kind = op['op']
        if r[0] == 'skip':
            return
        self.log.append((kind, op.get('k') or op.get('slot'), r[0], r[1] if r[0] in ('lib', 'foreign') else ''))
        self.states.add((kind, r[0], bool(self.truth.get(op.get('slot'))), op.get('damage', {}).get('how')))
        if r[0] == 'hang':
            return self.violate('%s did not terminate' % kind)
        if r[0] == 'intr':
            return
        if kind == 'make':
            k = self.keys[op['k']]
            if r[0] != 'ok':
                return self.violate('a valid public key (%s, %s) was refused: %s' % (
                    k['kd']['crv'], k['kd']['alg'], r[1]))
            self.compare('the key as received', r[1], k['kd'])
            self.live[op['k']] = r[1]
        elif kind == 'store':
            k = self.keys[op['k']]
            if r[0] != 'ok':
                return self.violate('a valid public key (%s, %s) could not be encoded: %s' % (
                    k['kd']['crv'], k['kd']['alg'], r[1]))
            if not same(r[-2], r[-1]):
                return self.violate('encoding a key changed it')
            if type(r[1]) is not bytes:
                return self.violate('encoding a key gave %s, not bytes' % type(r[1]).__name__)
            self.write(op, r[1], k)
        elif kind == 'load':
            t = r[-1][0]
            if t:
                if r[0] != 'ok':
                    return self.violate('a stored key could not be read back: %s' % r[1])
                self.compare('the key read back', r[1], t[1])
                if op.get('into'):
                    self.live[op['into']] = r[1]
                    self.keys[op['into']] = self.keys[t[0]]
            elif r[0] == 'foreign':
                pass            # an error all the same; which family is C10's business for network data
            elif r[0] == 'ok' and r[-1][2] == b'':
                self.violate('an empty blob was taken for a key')
        elif kind == 'use':
            t = r[-1][0]
            own = 'by:' + t[0] if t else None
            owners = {own} | {n for n in self.keysame(t)} if t else set()
            for name, got in r[1]:
                if got is True:
                    if t is None:
                        if name.startswith('by:') and self.damaged_ok(r[-1][1], name):
                            continue
                        if low_order_inside(r[-1][2]):
                            continue        # the damage spells a degenerate point of the signature scheme
                        return self.violate('a damaged stored key accepted a signature %s' % name)
                    if name not in owners:
                        return self.violate('a stored key accepted a signature %s, its owner is %s' % (name, own))
                elif t is not None and name == own:
                    if t[1] is not None and ref_public(t[1]) is not None:
                        return self.violate('a stored key refused its owner\'s signature: %s' % got)
                if got not in (True, 'VerificationError') and t is not None and (
                        isinstance(got, str) and got.startswith('!')):
                    return self.violate('verifying with a stored key raised %s' % got[1:])

    def keysame(self, t):
        """Names of keys with the same key pair and algorithm (aliases)."""
        k = self.keys[t[0]]
        return {'by:' + n for n, o in self.keys.items()
                if o['kp'] is k['kp'] and (o['kd']['alg'] == k['kd']['alg'])}

    def damaged_ok(self, good, name):
        """May a damaged blob still accept this signer? Only an owner whose key was being written or overwritten."""
        return any(self.keys[name[3:]]['kp'] is self.keys[g]['kp'] for g in good)

    def compare(self, what, obj, kd):
        try:
            v = key_view(obj)
        except Exception as e:
            return self.violate('%s is not a key: %r' % (what, e))
        for f in kd:
            if not same(v.get(f), kd[f]):
                return self.violate('%s has %s=%r instead of %r' % (what, f, v.get(f), kd[f]))

    def write(self, op, blob, k):
        """Durable write with storage faults."""
        slot = op['slot']
        dm = op.get('damage')
        name = op['k']
        sem = k['kd']
        old = self.blobs.get(slot)
        if dm:
            how = dm['how']
            self.stat('fault.disk.' + how)
            if how == 'lost':
                return
            r = Rng(self.seed, 'damage', dm.get('n', 0))
            nb = blob
            if how == 'torn':
                cut = r.randrange(0, len(blob))
                nb = blob[:cut] + (old[cut:] if old is not None and dm.get('over') else b'')
            elif how == 'bitflip':
                ba = bytearray(blob)
                for _ in range(dm.get('count', 1)):
                    i = r.randrange(len(ba) * 8)
                    ba[i // 8] ^= 1 << (i % 8)
                nb = bytes(ba)
            elif how == 'span':
                i = r.randrange(len(blob))
                n = r.randrange(1, 16)
                nb = blob[:i] + stream(n, 'span', self.seed, dm.get('n', 0)) + blob[i + n:]
                nb = nb[:len(blob)]
            elif how == 'zero_tail':
                i = r.randrange(len(blob))
                nb = blob[:i] + b'\0' * (len(blob) - i)
            elif how == 'append':
                nb = blob + stream(r.randrange(1, 9), 'app', self.seed)
            elif how == 'insert':
                i = r.randrange(len(blob))
                nb = blob[:i] + stream(1, 'ins', self.seed, dm.get('n', 0)) + blob[i:]
            elif how == 'delete':
                i = r.randrange(len(blob))
                nb = blob[:i] + blob[i + 1:]
            elif how == 'empty':
                nb = b''
            if nb == old:
                return          # as good as lost
            self.blobs[slot] = nb
            self.last_good[slot] = self.last_good.get(slot, ()) + (name,) if dm.get('over') else (name,)
            self.truth[slot] = (name, sem) if nb == blob else None
            return
        self.blobs[slot] = blob
        self.truth[slot] = (name, sem)
        self.last_good[slot] = (name,)

    def batch(self, op):
        subs = [o for o in op['ops'] if o['op'] in ('make', 'store', 'load', 'use')]
        if not subs:
            return
        sc = op.get('sched') or {}
        if 'explicit' in sc:
            ch = sched.explicit_chooser(sc['explicit'])
        else:
            ch = sched.seeded_chooser(Rng(self.seed, 'sched', sc.get('seed', 0)), sc.get('p', 0.05))
        holder = {}
        s = sched.Scheduler([(lambda o=o: self.do(o, holder['s'])) for o in subs], ch)
        holder['s'] = s
        res = s.run()
        sched.MAIN.drain()
        self.stat('batches')
        self.stat('switches', len(s.switches))
        self.switches[self.opi] = s.switches
        self.scheds.add(H(repr([o['op'] for o in subs]), repr(s.switches))[:8].hex())
        for o, x in zip(subs, res):
            if x[0] == 'exc':
                if isinstance(x[1], (sched.SimDeadlock, sched.SimHang)):
                    self.violate('%s did not terminate' % o['op'])
                    return
                raise x[1]
            self.settle(o, x[1])
            if self.violations:
                return


def keyspec(r, seed):
    crv, alg = r.pick(KTYPES)
    s = {'crv': crv, 'alg': alg}
    if alg != 'EdDSA' and r.p(0.12):
        s['alg'] = r.pick(['ES256', 'ES384', 'ES512'])
    if crv in LZ and r.p(0.3):
        s['keyseed'] = 'lz%d' % r.pick(LZ[crv])
    elif crv in ('P-256', 'P-384', 'P-521') and r.p(0.25):
        # the key of a point and of its mirror image: same x, other y
        s['keyseed'] = r.pick(['', 'neg:']) + 'tw%d' % r.randrange(2)
    if r.p(0.35):
        s['kid'] = r.pick(['', '00', '6b6579', 'ff' * 32, '6b6579', '2d', 'a5' * 300])
    if r.p(0.35):
        s['ops'] = [r.pick(OPN) for _ in range(r.pick([1, 1, 2, 3, 10]))]
    if r.p(0.3):
        s['iv'] = r.pick(['', '00', '00' * 12, 'ff' * 16, '0102030405060708'])
    if r.p(0.3):
        s['names'] = ''.join(x for x in 'tac' if r.p(0.5)) + ('o' if r.p(0.4) else '')
    if r.p(0.3):
        s['order'] = r.randrange(1, 99)
    return s


def make(seed, prof):
    r = Rng(seed, 'codec')
    p_dmg = r.pick([0, 0.2, 0.5])
    p_restart = r.pick([0, 0.15, 0.3])
    p_intr = r.pick([0, 0, 0.1])
    p_batch = r.pick([0, 0.25, 0.5])
    ops = []
    names, slots = [], []
    nslots = r.randrange(1, 5)

    def one():
        c = r.wpick([(3 if len(names) < 6 else 0, 'make'), (4 if names else 0, 'store'),
                     (4 if slots else 0, 'load'), (4 if slots else 0, 'use')])
        if c == 'make':
            n = 'k%d' % len(names)
            old = [x for x in names if x[0] == 'k']
            if old and r.p(0.3):
                n = r.pick(old)
            o = {'op': 'make', 'k': n, 'spec': keyspec(r, seed), 'via': r.pick(['bytes', 'bytes', 'dict', 'object'])}
            new.append(n)
        elif c == 'store':
            s = 'b%d' % r.randrange(nslots)
            o = {'op': 'store', 'k': r.pick(names), 'slot': s}
            if r.p(p_dmg):
                o['damage'] = {'how': r.pick(DAMAGE + ('lost', 'torn', 'bitflip')), 'n': r.randrange(10**6)}
                if r.p(0.3):
                    o['damage']['over'] = True
            newslots.append(s)
        elif c == 'load':
            o = {'op': 'load', 'slot': r.pick(slots)}
            if r.p(0.5) and names:
                o['into'] = 'l%d' % r.randrange(10**6)
                new.append(o['into'])
        else:
            o = {'op': 'use', 'slot': r.pick(slots), 'n': r.randrange(1000)}
        if r.p(p_intr):
            o['intr'] = [r.randrange(1, 60), r.pick(['MemoryError', 'KeyboardInterrupt', 'SimKill', 'RecursionError'])]
        return o
    for _ in range(r.randrange(6, 26)):
        new, newslots = [], []
        if names and r.p(p_batch):
            o = {'op': 'batch', 'ops': [one() for _ in range(r.pick([2, 2, 3]))],
                 'sched': {'seed': r.randrange(10**6), 'p': r.pick([0.02, 0.1, 0.3])}}
            # each thread works on its own name
            seen = set()
            for x in o['ops']:
                if x['op'] == 'make' and x['k'] in seen:
                    x['k'] += 'x'
                seen.add(x.get('k'))
        else:
            o = one()
        ops.append(o)
        names.extend(n for n in new if n not in names)
        slots.extend(s for s in newslots if s not in slots)
        if r.p(p_restart):
            ops.append({'op': 'restart'})
    # after the last restart, everything stored is read and used
    ops.append({'op': 'restart'})
    for s in slots:
        ops.append({'op': 'load', 'slot': s})
        ops.append({'op': 'use', 'slot': s, 'n': 1})
    return {'kind': 'codec', 'seed': 's%s' % seed, 'ops': ops, 'world': {}}
