"""Seeded generator of ceremony plans: clients, authenticators, an RP, an unreliable and hostile
network, failing storage, crashes, interrupts and simultaneous requests. Output: explicit JSON."""
import base64
import json

from sim.core import Rng, stream
from sim.world import STORE_EXCS, WEIRD

KTYPES = [('P-256', 'ES256'), ('P-384', 'ES384'), ('P-521', 'ES512'), ('Ed25519', 'EdDSA'),
          ('Ed448', 'EdDSA')]
CRVALG = ('P-256', 'P-384', 'P-521')
LZ = {'P-256': [245, 268, 12, 200], 'P-384': [419, 501, 105, 127], 'P-521': [44, 228, 558, 564]}
COUNTS = [0, 0, 1, 2, 7, 255, 256, 65535, 65536, 2**31 - 2, 2**31 - 1, 2**31, 2**32 - 3, 2**32 - 2,
          2**32 - 1]
INTR = ['MemoryError', 'KeyboardInterrupt', 'SystemExit', 'SimKill', 'GeneratorExit', 'TimeoutError',
        'OSError', 'RuntimeError', 'RecursionError']
KILL = ['KeyboardInterrupt', 'SystemExit', 'SimKill', 'GeneratorExit']

CATS = ('sig', 'chan', 'origin', 'challenge', 'type', 'tb', 'rpid', 'owner', 'allow', 'flags', 'ext',
        'att', 'count', 'malform', 'cdmal', 'admal', 'jmal')

BASE = {
    'n': (2, 7), 'p_reg': 0.35, 'p_twist': 0.45, 'p_fault': 0.06, 'p_intr': 0.03, 'p_batch': 0.15,
    'p_restart': 0.06, 'p_admin': 0.08, 'p_dup': 0.12, 'p_drop': 0.05, 'p_cross': 0.08, 'p_late': 0.1,
    'p_newbackend': 0.05, 'p_two': 0.12, 'modes': ['object', 'blob'], 'p_tenant2': 0.25, 'fmt': 0.35,
    'p_rich': 0.4, 'solo': 'viol', 'w': {}, 'p_cas': 0.4, 'p_norp': 0.2, 'p_follow': 0.3,
    'p_long': 0.01, 'p_burst': 0,
}


def prof(**kw):
    d = dict(BASE)
    d.update(kw)
    return d


PROFILES = {
    'C01': prof(w={'sig': 14, 'chan': 2}, p_reg=0.3, p_admin=0.25, p_twist=0.6, n=(3, 8), fmt=0.1),
    'C02': prof(w={'origin': 6, 'challenge': 6, 'type': 3, 'tb': 5, 'rpid': 4}, p_twist=0.65, p_cross=0.25,
                p_dup=0.2),
    'C03': prof(w={'owner': 10, 'allow': 6}, p_reg=0.3, p_twist=0.6, p_admin=0.2, p_norp=0.4, fmt=0.1,
                p_tenant2=0.4),
    'C04': prof(w={'flags': 8, 'ext': 8}, p_twist=0.6),
    'C05': prof(w={'att': 16}, p_reg=0.85, p_twist=0.65, fmt=0.85, n=(2, 5)),
    'C06': prof(w={'count': 14}, p_reg=0.2, p_twist=0.6, n=(4, 12), p_batch=0.3, p_dup=0.35, p_cas=0.7,
                fmt=0.05, p_admin=0.15, p_cross=0.0, p_follow=0.6),
    'C07': prof(p_twist=0.3, p_fault=0.2, p_rich=0.8, fmt=0.5, n=(2, 6)),
    'C08': prof(p_twist=0.1, p_fault=0.55, n=(3, 8), fmt=0.15, p_follow=0.7, solo='some'),
    'C09': prof(p_twist=0.12, p_fault=0.12, p_rich=0.85, fmt=0.45, n=(2, 7), p_intr=0.05, p_follow=0.6,
                p_long=0.02, p_burst=0.08),
    'C10': prof(w={'malform': 10, 'cdmal': 6, 'admal': 8, 'jmal': 6}, p_twist=0.85, n=(2, 7), fmt=0.4),
    'C11': prof(p_burst=0.05, p_twist=0.4, p_batch=0.7, n=(3, 9), solo='all', p_fault=0.1, p_intr=0.0),
    'C12': prof(w={'sig': 5, 'att': 4, 'flags': 2, 'count': 2, 'owner': 2, 'allow': 2}, p_twist=0.4, p_intr=0.6, n=(3, 7), p_fault=0.15, p_follow=0.6, kills=True, solo='some',
                p_batch=0.1, p_sweep=0.3),
    'C13': prof(p_twist=0.25, p_rich=0.95, modes=['blob'], p_restart=0.3, w={'sig': 8}, fmt=0.1, n=(3, 8),
                p_follow=0.6),
    'C15': prof(p_twist=0.9, p_two=0.3, p_batch=0.03, n=(2, 5), p_intr=0.0, p_norp=0.3, p_fault=0.1,
                fmt=0.4),
}


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def h(b):
    return {'$h': b.hex()}


KD_TAGS = {'2': ['int', 3], '3': ['int', 256], '5': ['set', [4]], '6': ['set', [1, 2]], '10': ['int', 1], '200': ['int', 65537],
           '303': ['null', 0], '400': ['int', 1], '401': ['int', 1], '402': ['int', 1], '503': ['null', 0], '504': ['int', 2],
           '505': ['int', 30], '506': ['null', 0], '507': ['null', 0], '508': ['null', 0], '509': ['null', 0],
           '601': ['oct', h(b'app')], '701': ['int', 1500000000000], '703': ['null', 0], '704': ['rot', h(b'\x01' * 32)],
           '705': ['int', 0], '706': ['int', 202001], '709': ['oct', h(b'')], '710': ['oct', h(b'brand')],
           '711': ['oct', h(b'dev')], '712': ['oct', h(b'p')], '713': ['oct', h(b's')], '714': ['oct', h(b'i')],
           '715': ['oct', h(b'm')], '716': ['oct', h(b'mf')], '717': ['oct', h(b'mo')], '718': ['int', 20200101],
           '719': ['int', 20200101]}


class Gen:
    def __init__(self, seed, pname, **over):
        self.pname = pname
        self.P = dict(PROFILES[pname])
        self.P.update(over)
        self.r = Rng(seed, pname)
        self.seed = 's%s' % seed
        self.seq = 0
        self.ev = []          # (t, seq, op)
        self.nc = self.nm = 0
        r = self.r
        # swarm: every run switches kinds of trouble on and off
        for k in ('p_fault', 'p_intr', 'p_batch', 'p_restart', 'p_admin', 'p_dup', 'p_drop', 'p_cross',
                  'p_late', 'p_newbackend', 'p_two'):
            self.P[k] = min(0.95, self.P[k] * r.pick([0, 0.5, 1, 1, 1.5, 2]))
        w = {c: 1.0 for c in CATS}
        w.update(self.P['w'])
        self.catw = [(x * r.pick([0.2, 1, 1, 2.5]), c) for c, x in w.items()]
        self.P['p_twist'] *= r.pick([0.4, 1, 1, 1.3])
        if r.p(0.08):
            self.P['p_twist'] = 0

    def add(self, t, op):
        self.seq += 1
        op['t'] = round(t, 3)
        self.ev.append((op['t'], self.seq, op))
        return op

    # ---------------------------------------------------------------- world
    def world(self):
        r = self.r
        users = {}
        nu = r.randrange(1, 5)
        base = bytes(r.randrange(256) for _ in range(r.pick([1, 4, 16, 16, 32, 64])))
        if r.p(0.15):
            base = (b'\0' * r.pick([1, 2]) + base)[:64]
        for i in range(nu):
            u = {'name': r.pick(['alice', 'bob', 'çelik', 'user@example.com', '', 'Alice']),
                 'display': r.pick(['Alice A.', 'Bob', '名前', '', 'x' * 70])}
            if i == 0:
                u['id'] = base.hex()
            else:
                k = r.randrange(9)
                v = base
                if k == 0:
                    v = base[:-1] or b'\0'
                elif k == 1:
                    v = base[:63] + b'\0'
                elif k == 2:
                    v = bytes([base[0] ^ 0x20]) + base[1:]
                elif k == 3:
                    v = base[:-1] + bytes([base[-1] ^ 1])
                elif k == 4:
                    v = b'\0' * len(base)
                elif k == 5:
                    v = (b'\0' * r.pick([1, 1, 2, 48]) + base)[:64]
                elif k == 6:
                    v = base.lstrip(b'\0') if base[0] == 0 and base.strip(b'\0') else base[::-1]
                if v == base or any(v.hex() == x['id'] for x in users.values()):
                    v = bytes(r.randrange(256) for _ in range(16))
                u['id'] = v.hex()
            users['u%d' % i] = u
        rp0 = r.pick(['example.com', 'login.example.com', 'localhost', 'xn--bcher-kva.example', 'a-b.co',
                      'example.com'])
        near = [rp0 + '.evil.org', 'evil-' + rp0, 'www.' + rp0, rp0.split('.', 1)[-1], rp0.upper(),
                rp0 + '.', 'evil.org', rp0[:-1], rp0.replace('l', '1')]
        rps = {'r0': {'id': rp0, 'name': r.pick(['Example', '', 'é'])}}
        for i in range(1, r.pick([1, 2, 2, 3])):
            v = r.pick(near)
            if v not in [x['id'] for x in rps.values()] and v:
                rps['r%d' % i] = {'id': v, 'name': 'RP%d' % i}
        tens = {}
        for i in range(2 if r.p(self.P['p_tenant2']) else 1):
            tens['t%d' % i] = {'mode': r.pick(self.P['modes']), 'with_rp': not r.p(self.P['p_norp']),
                               'cas': r.p(self.P['p_cas']), 'regcount': r.p(0.5)}
        self.w = {'tenants': tens, 'users': users, 'rps': rps}

    def origins_for(self, rp):
        """-> (config value, config form, primary)"""
        r = self.r
        host = self.w['rps'][rp]['id'].lower().rstrip('.')
        prim = r.wpick([(6, 'https://' + host), (1, 'https://%s:443' % host), (2, 'https://%s:8443' % host),
                        (1, 'http://' + host), (1, 'http://%s:80' % host), (2, 'http://%s:5000' % host),
                        (1, 'https://sub.' + host), (0.5, 'https://192.168.0.1:1'),
                        (0.5, 'https://[::1]:65535')])
        k = r.randrange(6)
        if k < 3:
            return prim, None, prim
        lst = [prim]
        for _ in range(r.randrange(0, 4)):
            o = r.pick(['https://other.' + host, 'https://%s:444' % host, 'http://localhost:5000',
                        'https://a.example', 'https://%s:9000' % host, 'https://m.' + host + ':443'])
            if o not in lst:
                lst.append(o)
        return lst, r.pick(['list', 'tuple', 'set', 'frozenset']), prim

    # ---------------------------------------------------------------- honest variety
    def ext_output(self, n):
        r = self.r
        if n in ('appid', 'authnSel', 'biometricPerfBounds'):
            return r.pick([False, True])
        if n == 'txAuthSimple':
            return r.pick(['', 'ok', 'Überweisung', ' ok ', 'a\nb', 'OK', '\0', 'e\u0301', 'x' * 3000])
        if n in ('txAuthGeneric', 'uvi'):
            return h(r.pick([b'', b'\0', b'\0' * 32, b'\xff' * 33, b'ok', b' \n', bytes(range(256))]))
        if n == 'exts':
            return r.pick([[], ['appid'], ['loc', 'uvm'], ['uvm', 'loc'], ['appid', 'appid'], [''], ['unknown', 'appid'],
                           ['x%d' % i for i in range(40)]])
        if n == 'uvm':
            if r.p(0.4):
                return r.pick([[], [[2, 4, 2]], [[0, 0, 0], [4, 1, 1]]])
            big = [0, 1, 2, 4, 2, 2, 23, 24, 255, 256, 1024, 65535, 2**31, 2**32 - 1, 2**53 + 1]
            return [[r.pick(big) for _ in range(r.pick([3, 3, 3, 0, 1, 2, 4]))] if r.p(0.5) else [2, 4, 2]
                    for _ in range(r.randrange(1, 5))]
        num = [0, 0.0, 1, 2.5, 3.5, -1, -0.5, 100, 48.5, 48.123456789012345, 1e-9, 359.99, 360, 1e300, 2**53 + 1, -0.0]
        d = {'latitude': r.pick([0, 0.0, 48.5, -90, 90.0, -0.5, 89.123456789, 1e-12]),
             'longitude': r.pick([0, 11.25, -180.0, 180, 179.999999999, -0.0]),
             'accuracy': r.pick([0, 1, 2.5, 1e6, 0.1])}
        for k in ('altitude', 'altitudeAccuracy', 'heading', 'speed'):
            if r.p(0.3):
                d[k] = r.pick(num)
        return d

    EXTN = ('appid', 'txAuthSimple', 'txAuthGeneric', 'authnSel', 'exts', 'uvi', 'loc', 'uvm',
            'biometricPerfBounds')

    def kd_rest(self, a):
        """What a key description says beyond what matters."""
        r = self.r
        a['kdhead'] = [r.pick([1, 2, 3, 4, 100, 200, 300]), r.pick([1, 1, 2]), r.pick([2, 3, 4, 41, 100, 200, 300]),
                       r.pick([1, 1, 2]), r.pick(['', '', '00' * 16])]
        for w in ('sw', 'tee'):
            for t in r.sample(sorted(KD_TAGS), r.randrange(5)):
                d = a.setdefault(w, {} if w == 'sw' else {'1': ['set', [2]], '702': ['int', 0]})
                d.setdefault(t, KD_TAGS[t])

    def honest_reg(self, spec):
        r = self.r
        crv, alg = r.pick(KTYPES) if r.p(0.6) else KTYPES[0]
        if r.p(self.P['fmt']):
            f = r.pick(['fido-u2f', 'android-key'])
            if f == 'fido-u2f':
                crv, alg = KTYPES[0]
            spec['fmt'] = f
            a = {}
            if f == 'fido-u2f':
                if r.p(0.5):
                    a['model'] = 'm%d' % r.randrange(4)
                if r.p(0.2):
                    a['certpad'] = r.pick([1, 200, 1500])
            else:
                if r.p(0.4):
                    a['chain'] = r.randrange(1, 4)
                if r.p(0.3):
                    a['algname'] = 1
                if r.p(0.3):
                    a['tee'] = {'1': ['set', r.pick([[2], [2, 3], [3, 2], [0, 2]])], '702': ['int', 0]}
                if r.p(0.3):
                    self.kd_rest(a)
                if r.p(0.2):
                    a['certpad'] = r.pick([1, 200])
            if a:
                spec['att'] = a
        if crv in CRVALG and spec.get('fmt') != 'fido-u2f' and r.p(0.06):
            alg = r.pick(['ES256', 'ES384', 'ES512'])       # any hash with any curve
        spec['crv'], spec['alg'] = crv, alg
        if crv in LZ and r.p(0.15):
            spec['keyseed'] = 'lz%d' % r.pick(LZ[crv])
        c = r.randrange(8)
        if c == 0:
            spec['cidlen'] = r.pick([1, 2, 15, 17, 32, 64, 255, 256, 257, 1023])
        elif c == 1 and r.p(0.15):
            spec['cidlen'] = r.pick([4096, 65535])
        if r.p(0.4):
            spec['count'] = r.pick(COUNTS)
        if r.p(self.P['p_rich']):
            if r.p(0.4):
                spec['names'] = ''.join(x for x in 'tac' if r.p(0.4))
            if r.p(0.4):
                m = []
                if r.p(0.5):
                    m.append([2, h(r.pick([b'', b'kid', b'\0' * 20]))])
                if r.p(0.5):
                    m.append([4, r.pick([[2], [1, 2], ['verify'], ['sign', 2], [7, 8, 9, 10]])])
                if r.p(0.4):
                    m.append([5, h(r.pick([b'', b'\x01\x02', b'\0' * 8]))])
                spec['extra'] = {'$m': m}
            if r.p(0.3):
                spec['keyorder'] = r.randrange(1, 50)
            if r.p(0.3):
                spec['aoorder'] = r.randrange(3)
            if r.p(0.3):
                spec['aaguid'] = r.pick(['00' * 16, 'ff' * 16])
            if r.p(0.5):
                # spare/user-verified bits an honest authenticator may or may not set
                spec['flags'] = 1 | r.pick([0, 4]) | r.pick([0, 0, 2, 8, 16, 32, 58])
        self.honest_common(spec)

    def honest_common(self, spec):
        r = self.r
        if r.p(self.P['p_rich'] * 0.6):
            n = r.randrange(1, 4)
            spec['exts'] = {k: self.ext_output(k) for k in r.sample(self.EXTN, n)}
        elif r.p(0.05):
            spec['exts'] = {}
        cd = {}
        if r.p(self.P['p_rich'] * 0.7):
            cd['layout'] = r.randrange(32)
        if r.p(self.P['p_rich'] * 0.5):
            cd['extra'] = r.pick([{'crossOrigin': False}, {'hashAlgorithm': 'SHA-256'},
                                  {'new_keys_may_be_added_here': 'do not compare clientDataJSON'},
                                  {'x': [1, {'y': None}]}, {'crossOrigin': True, 'topOrigin': 'https://a.example'},
                                  {'clientExtensions': {}}, {'authenticatorExtensions': {'loc': 1}},
                                  {'pad': 'p' * 5000}, {'é': '☃'}, {'id': 'x', 'status': 'present'}])
        if cd:
            spec['cd'] = cd

    def policy(self, rp, kind):
        r = self.r
        pol = {}
        o, form, prim = self.origins_for(rp)
        pol['origins'] = o
        if form:
            pol['origins_as'] = form
        if r.p(0.3):
            pol['uv'] = True
        elif r.p(0.1):
            pol['uv_explicit'] = True
        if r.p(0.25):
            pol['tb'] = r.pick([{'status': 'present', 'id': 'dGItaWQ'}, {'status': 'supported'},
                                {'status': 'present', 'id': 'other'}, {'status': 'present', 'id': ''}])
        if r.p(0.6):
            pol['keep'] = r.pick([1, 1, 2])
        if r.p(0.5):
            pol['ents'] = r.pick([1, 2, 2])
        if r.p(0.3):
            pol['chlen'] = r.pick([1, 16, 31, 33, 64, 65])
        if kind == 'auth':
            if r.p(0.3):
                pol['pass_user'] = False
            if r.p(0.25):
                pol['pass_rp'] = False
            if r.p(0.08):
                pol['ignore'] = True
        return pol, prim

    # ---------------------------------------------------------------- one ceremony
    def ceremony(self, t, kind, cred=None, clean=False):
        """Adds the events of one ceremony starting at time t; returns info for later ones."""
        r = self.r
        c = 'c%d' % self.nc
        self.nc += 1
        m = 'm%d' % self.nm
        self.nm += 1
        ten = r.pick(sorted(self.w['tenants']))
        user = r.pick(sorted(self.w['users']))
        rp = 'r0' if r.p(0.75) else r.pick(sorted(self.w['rps']))
        if cred is not None:
            ten, user, rp = cred['tenant'], cred['user'], cred['rp']
        pol, prim = self.policy(rp, kind)
        spec = {}
        if kind == 'reg':
            self.honest_reg(spec)
        else:
            spec['cred'] = cred['m']
            self.honest_common(spec)
            if r.p(0.3) and pol.get('pass_user', True):
                spec['uh'] = 'none'
            if r.p(0.3):
                spec['flags'] = 1 | r.pick([0, 4]) | r.pick([0, 0, 2, 8, 16, 32, 58])
            if r.p(0.35):
                spec['inc'] = r.pick([1, 2, 100, 2**31, 65536]) if not cred['zero'] else 0
            elif cred['zero']:
                spec['inc'] = 0
            if not cred['rpstored'] and 'pass_rp' in pol:
                del pol['pass_rp']
            if r.p(0.35):
                al = [cred['m']]
                for _ in range(r.pick([0, 0, 1, 3, 3, 24, 70])):
                    al.insert(r.randrange(len(al) + 1), r.pick(
                        ['zz%d' % r.randrange(5), 'hex:', 'hex:00'] + [x['m'] for x in self.creds]))
                pol['allow'] = al
        if prim != (pol['origins'] if isinstance(pol['origins'], str) else pol['origins'][0]):
            spec['origin'] = prim
        elif r.p(0.15):
            spec['origin'] = self.default_port(prim)
        if pol.get('uv'):
            if 'flags' in spec:
                spec['flags'] |= 4
        if spec.get('exts') and r.p(0.6):
            pol['exts'] = sorted(k for k in spec['exts'] if r.p(0.7))
        elif r.p(0.08):
            pol['exts'] = []
        if 'exts' in pol and pol['exts'] and pol['exts'] not in self.demands:
            self.demands.append(pol['exts'])
        op = {'op': 'begin', 'c': c, 'kind': kind, 'tenant': ten, 'user': user, 'rp': rp, 'pol': pol}
        dl = {'op': 'deliver', 'm': m, 'c': c, 'mc': c}
        rs = {'op': 'respond', 'c': c, 'm': m, 'spec': spec}
        self.cur = (kind, op, rs, dl, cred, prim)
        bad = False
        if not clean and r.p(self.P['p_twist']):
            bad = self.twist()
            if r.p(self.P['p_two']):
                self.twist()
        lat = r.expovariate(1.0)
        t1 = t + 0.01 + lat
        self.add(t, op)
        self.add(t1, rs)
        t2 = t1 + 0.01 + r.expovariate(1.0)
        if not clean:
            if r.p(self.P['p_late']):
                t2 += r.expovariate(0.05)
                dl['late'] = 1
            if r.p(self.P['p_drop']):
                dl = None
        if dl is not None:
            if not clean and r.p(self.P['p_fault']):
                self.fault(dl, kind)
                bad = bad or True
            if not clean and r.p(self.P['p_intr']):
                dl['intr'] = self.interrupt(kind)
                bad = True
            if not clean and r.p(self.P.get('p_sweep', 0)):
                # the client keeps sending it; every attempt is cut off somewhere else
                n = r.pick([6, 12, 24, 40])
                hi = 330 if kind == 'reg' else 230
                at, step, how = r.randrange(1, hi), r.pick([1, 1, 2, 3, 5]), r.randrange(4)
                e = r.pick(INTR)
                d2 = {k: v for k, v in dl.items() if k not in ('fault', 'intr')}
                dl.pop('intr', None)
                if how >= 2:
                    # handled once, then again with interrupts close to where it was decided
                    self.add(t2, d2)
                    at = r.pick([-1, -1, 0, 10, 30])
                for i in range(n):
                    x = 1 + (at + i * step) % (80 if how == 0 else hi)
                    e2 = e if r.p(0.8) else r.pick(INTR)
                    it = [-x, e2] if how == 0 else [x, e2] if how == 1 else ['end', at + 1 + i, e2]
                    self.add(t2, dict(d2, intr=it, dup=1))
                bad = True
                t2 += 1
            self.add(t2, dl)
            if bad and r.p(0.35) and ('tamper' in dl or 'fault' in dl or 'intr' in dl):
                # the unharmed response follows (a retry)
                d2 = {k: v for k, v in dl.items() if k not in ('tamper', 'fault', 'intr')}
                self.add(t2 + r.expovariate(0.5), dict(d2, dup=1))
                if 'tamper' not in dl:
                    bad = False
            if r.p(self.P['p_dup'] if not clean else 0):
                d2 = {k: v for k, v in dl.items() if k not in ('fault', 'intr')}
                self.add(t2 + (0 if r.p(0.4) else r.expovariate(0.3)), dict(d2, dup=1))
            if not clean and r.p(self.P['p_cross']) and self.nc > 1:
                other = 'c%d' % r.randrange(self.nc)
                d2 = {'op': 'deliver', 'm': m, 'c': other, 'mc': c}
                self.add(t2 + r.expovariate(0.3), d2)
        info = {'c': c, 'm': m, 'tenant': ten, 'user': user, 'rp': rp, 'bad': bad or dl is None, 'kind': kind,
                't': t2, 'zero': spec.get('count', 0) == 0 and kind == 'reg' and r.p(0.3),
                'rpstored': self.w['tenants'][ten]['with_rp'], 'crv': spec.get('crv')}
        self.infos.append(info)
        return info

    def interrupt(self, kind):
        r = self.r
        e = r.pick(INTR if not (self.P.get('kills') and r.p(0.6)) else KILL)
        if r.p(0.25):
            return [-r.randrange(1, 90), e]
        return [r.randrange(1, 330 if kind == 'reg' else 230), e]

    @staticmethod
    def default_port(o):
        if o.endswith(':443') and o.startswith('https:'):
            return o[:-4]
        if o.endswith(':80') and o.startswith('http:'):
            return o[:-3]
        rest = o.split('://', 1)[1]
        if ':' not in rest.replace('[', '').split(']')[-1]:
            return o + (':443' if o.startswith('https') else ':80')
        return o

    def raised(self, names):
        d = {'exc': self.r.pick(names)}
        if names is STORE_EXCS and self.r.p(0.5):
            d['msg'] = self.r.randrange(10)
        return d

    def fault(self, dl, kind):
        r = self.r
        f = {}
        where = 'put' if kind == 'reg' or r.p(0.6) else 'get'
        names = STORE_EXCS
        if self.P.get('kills') and r.p(0.6):
            names = KILL
        if where == 'get':
            f['get'] = self.raised(names) if r.p(0.85) else {'ret': r.pick(['garbage', 'False', '0', 'list'])}
        elif r.p(0.5):
            f['put'] = self.raised(names)
        else:
            f['put'] = {'ret': r.pick(WEIRD)}
        if where == 'put' and r.p(0.35):
            f['put']['after'] = 1
        dl['fault'] = f

    # ---------------------------------------------------------------- twists
    def twist(self):
        kind, op, rs, dl, cred, prim = self.cur
        for _ in range(8):
            cat = self.r.wpick(self.catw)
            if getattr(self, 'tw_' + cat)(kind, op, rs, dl, cred, prim):
                return True
        return False

    def tamper(self, dl, **t):
        dl.setdefault('tamper', []).append(t)
        return True

    def bytes_edit(self, f):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            return {'f': f, 'how': 'flip', 'at': r.pick([0, -1, 32, 33, 36, 37, r.randrange(4000)]),
                    'bit': r.randrange(8)}
        if k == 1:
            return {'f': f, 'how': 'trunc', 'n': r.pick([0, 0, 1, 3, r.randrange(300)])}
        if k == 2:
            return {'f': f, 'how': 'append', 'v': r.pick(['00', 'ff', '0000', '20', '7d', 'a0', 'f6'])}
        if k == 3:
            return {'f': f, 'how': 'byte', 'at': r.randrange(4000), 'v': r.pick([0, 1, 0x7f, 0x80, 0xff, 0x5f, 0x9f, 0xbf])}
        if k == 4:
            return {'f': f, 'how': 'dupslice', 'at': r.randrange(4000), 'n': r.pick([1, 1, 4, 37])}
        if k == 5:
            return {'f': f, 'how': 'delslice', 'at': r.randrange(4000), 'n': r.pick([1, 1, 4, 37])}
        if k == 6:
            return {'f': f, 'how': 'prepend', 'v': r.pick(['00', 'ff', '20'])}
        return {'f': f, 'how': r.pick(['zero', 'keep']), 'n': r.pick([0, 1, 36, 37, 38])}

    def tw_sig(self, kind, op, rs, dl, cred, prim):
        if kind == 'reg':
            return False
        r, spec = self.r, rs['spec']
        k = r.randrange(11)
        if k == 10:
            # attested data in an assertion: another key offered for the same credential
            a = spec['attd'] = {'key': r.pick(['k1', 'k1', 'own']), 'crv': r.pick(['P-256', 'P-256', 'Ed25519'])}
            if r.p(0.2):
                a['cid'] = r.pick(['', '00', stream(16, self.seed, 'acid').hex()])
            if r.p(0.6) and a['key'] != 'own':
                spec['sign'] = {'key': a['key'], 'crv': a['crv']}
            elif r.p(0.8):
                spec['sign'] = {'over': r.pick(['head37', 'head37', 'ad37', 'cdh'])}
            if r.p(0.2):
                spec['exts'] = {'appid': True}
        elif k == 0:
            spec['sign'] = {'key': r.pick(['k1', 'k2'])}
        elif k == 1:
            spec['sign'] = {'over': r.pick(['raw', 'cdh', 'ad', 'swap', 'ad37', 'nocount', 'noflags', 'double',
                                            'head37'])}
            if r.p(0.4):
                spec.setdefault('exts', {'appid': True})
        elif k == 2:
            spec['sign'] = {'alg': r.pick(['ES256', 'ES384', 'ES512'])}
        elif k in (3, 4):
            if k == 4 and r.p(0.5):
                from sim.authr import RECODE
                self.tamper(dl, f='sig', how='recode', v=r.pick(RECODE))
            else:
                self.tamper(dl, **self.bytes_edit('sig'))
        elif k == 5:
            j = r.randrange(6)
            if j == 0:      # raise the counter in transit
                self.tamper(dl, f='ad', how='byte', at=33, v=r.pick([0x7f, 0x70, 1]))
            elif j == 1:
                self.tamper(dl, f='ad', how='byte', at=32, v=r.pick([1, 5, 0x45, 0x41]))
            elif j == 2:
                self.tamper(dl, f='ad', how='flip', at=r.randrange(33, 37), bit=r.randrange(8))
            elif j == 3:    # turn an extension output
                spec.setdefault('exts', {'appid': True})
                self.tamper(dl, f='ad', how='flip', at=-1, bit=0)
            else:
                self.tamper(dl, **self.bytes_edit('ad'))
        elif k == 6:
            j = r.randrange(5)
            if j == 0:
                self.tamper(dl, f='cdj', how='append', v=r.pick(['20', '0a']))
            elif j == 1:
                self.tamper(dl, f='cdj', how='prepend', v='20')
            elif j == 2:
                self.tamper(dl, f='cdj', how='sub', a='{', b='{"x":1,')
            elif j == 3:
                self.tamper(dl, f='cdj', how='sub', a=',', b=', ')
            else:
                spec.setdefault('cd', {})['extra'] = {'crossOrigin': False}
                self.tamper(dl, f='cdj', how='sub', a='false', b='true ')
        elif k == 7 and self.nm > 1:
            src = 'm%d' % r.randrange(self.nm - 1)
            self.tamper(dl, f=r.pick(['ad', 'sig', 'cdj', 'sig']), how='splice', m=src)
        elif k == 8:
            # another credential's holder answers in this one's name
            others = [x for x in self.creds if x['m'] != cred['m']]
            if not others:
                return False
            o = r.pick(others)
            spec['cred'] = o['m']
            self.tamper(dl, f='rawId', how='splice', m=cred['m'], fixid=1)
            if r.p(0.5):
                spec['uhuser'] = cred['user']
        else:
            self.tamper(dl, f='sig', how='setb', v=r.pick(['', '00', '3000', '3006020100020100',
                                                          '3006020101020101', '00' * 64, '00' * 114]))
        return True

    def tw_chan(self, kind, op, rs, dl, cred, prim):
        """Corruption on the way."""
        r = self.r
        f = r.pick(['cdj', 'ao.authData', 'attobj', 'rawId'] if kind == 'reg' else ['cdj', 'ad', 'sig', 'uh', 'rawId'])
        return self.tamper(dl, **self.bytes_edit(f))

    def lookalike(self, host):
        """The host with one character that some normalisation turns into the right one or drops."""
        r = self.r
        i = r.randrange(len(host))
        c = host[i]
        if 'a' <= c <= 'z' and r.p(0.7):
            o = ord(c) - 97
            x = r.pick([chr(0xff41 + o), chr(0x24d0 + o), chr(0x1d41a + o), c + '\u0301', chr(0xff21 + o)])
            return host[:i] + x + host[i + 1:]
        return host[:i] + r.pick(['\u00ad', '\u200b', '\u0301', '\u200d', '\ufe0f', 'é']) + host[i:]

    def tw_origin(self, kind, op, rs, dl, cred, prim):
        r = self.r
        pol = op['pol']
        sch, rest = (prim if isinstance(pol['origins'], str) or r.p(0.7) else r.pick(pol['origins'])).split('://', 1)
        host = rest
        port = None
        if ':' in rest and not rest.endswith(']'):
            host, p = rest.rsplit(':', 1)
            port = int(p)
        other = {'http': 'https', 'https': 'http'}[sch]
        suf = '' if port is None else ':%d' % port
        opts = [other + '://' + rest, other + '://' + host, sch + '://' + host + '.evil.org' + suf,
                sch + '://evil' + rest, sch + '://www.' + rest, sch + '://' + host.split('.', 1)[-1] + suf,
                sch + '://user@' + rest, sch + '://' + host + '@evil.org' + suf,
                sch + '://evil.org#' + prim, sch + '://evil.org/' + prim, sch + '://evil.org?' + prim,
                sch + '://evil.org\\@' + rest, 'null', '', rest, '//' + rest, sch + ':' + rest,
                'ftp://' + rest, 'ws://' + rest, 'file://' + rest, 'javascript://' + rest, sch + '://' + host + '..' + suf,
                sch + '://' + host.replace('e', 'е') + suf, sch + '://' + self.lookalike(host) + suf,
                sch + '://' + self.lookalike(host) + suf, sch + '://' + host[:-1] + suf,
                sch + '://' + host + 'x' + suf, sch + '://:' + str(port or 443),
                sch + '://' + host + ':' + str((port or 443) + 1), sch + '://' + host + ':1',
                sch + '://' + host + ':0', sch + '://' + host + ':99999', sch + '://' + host + ':4430',
                sch + '://' + host + ':80', sch + '://' + host + ':443', sch + '://' + host + ':8443',
                sch + '://' + host + ':5000', sch + '://' + host + ':' + str((port or 443) + 65536),
                sch + '://evil.org', 'https://' + self.w['rps']['r0']['id'] + ':1443',
                sch + '://' + host + ':x', sch + '://[' + rest, sch + '://' + host + suf + '/path',
                sch + '://' + r.pick(['127.0.0.1', '[::1]', 'localhost', '0.0.0.0', '127.1']) + suf,
                'android:apk-key-hash:abc', sch + '://evil.org:443@' + rest, sch + '://%00' + rest]
        if r.p(0.12) and not isinstance(pol['origins'], str):
            pol['origins'] = [] if r.p(0.3) else [o for o in pol['origins'] if o != prim]
            rs['spec']['origin'] = prim
            return True
        if r.p(0.1):
            # exotic spellings whose equality is left open, or odd types
            rs['spec'].setdefault('cd', {})['origin'] = r.pick(
                [prim.upper(), prim + '/', ' ' + prim, prim + ' ', prim + '?', prim + '#', 5, None, [prim], {},
                 prim + '.', prim.replace('://', ':///')])
            return True
        if host in ('localhost', '[::1]', '192.168.0.1') and r.p(0.4):
            opts = [sch + '://' + x + suf for x in ('localhost', '127.0.0.1', '[::1]', '0.0.0.0', '127.1', '[::]',
                                                    'localhost.localdomain', '192.168.0.2') if x != host]
        rs['spec']['origin'] = r.pick(opts)
        return True

    def tw_challenge(self, kind, op, rs, dl, cred, prim):
        r = self.r
        spec = rs['spec']
        cd = spec.setdefault('cd', {})
        k = r.randrange(17)
        from sim.core import stream
        if k >= 14:
            # challenges with zero bytes at the ends, and near misses of them
            core = stream(r.pick([1, 15, 30, 32]), self.seed, 'zch', op['c'])
            v = b'\0' * r.pick([0, 1, 1, 2]) + core + b'\0' * r.pick([0, 0, 1, 2])
            op['pol']['chal'] = v.hex()
            w = r.pick([v.lstrip(b'\0'), v.rstrip(b'\0'), b'\0' + v, v + b'\0', v.replace(b'\0', b''), core, v + v[:1],
                        v[1:], v[:-1], v[:1] + v])
            if w != v:
                cd['challenge'] = b64u(w)
                return True
            return False
        mine = stream(op['pol'].get('chlen', 32), self.seed, 'chal', op['c'])
        if k in (0, 1) and self.nc > 1:
            # the challenge of another ceremony
            o = 'c%d' % r.randrange(self.nc - 1)
            ob = next((e[2] for e in self.ev if e[2]['op'] == 'begin' and e[2]['c'] == o), None)
            if ob is None:
                return False
            cd['challenge'] = b64u(stream(ob['pol'].get('chlen', 32), self.seed, 'chal', o))
        elif k == 2:
            cd['challenge'] = b64u(mine[:-1])
        elif k == 3:
            cd['challenge'] = b64u(mine + b'\0')
        elif k == 4:
            cd['challenge'] = ''
        elif k == 5:
            i = r.randrange(len(mine))
            cd['challenge'] = b64u(mine[:i] + bytes([mine[i] ^ (1 << r.randrange(8))]) + mine[i + 1:])
        elif k == 6:
            cd['challenge'] = b64u(mine).swapcase()
        elif k == 7:
            cd['challenge'] = mine.hex()
        elif k == 8:
            cd['challenge'] = b64u(b64u(mine).encode())
        elif k == 9:
            cd['challenge'] = b64u(mine[::-1])
        elif k == 10:
            cd['challenge'] = b64u(mine * 2)
        elif k == 11:
            cd['challenge'] = b64u(mine[:16])
        elif k == 12:
            cd['challenge'] = r.pick([None, 1, ['x'], '=', '====', '!!!!', 'é', 'A', b64u(mine) + '=',
                                      b64u(mine) + '!', base64.b64encode(mine).decode()])
        else:
            # a fixed challenge reused by the RP, the response made for another value
            op['pol']['chal'] = r.pick(['00' * 32, '', '00'])
            cd['challenge'] = b64u(mine)
        return True

    def tw_type(self, kind, op, rs, dl, cred, prim):
        r = self.r
        own, oth = ('webauthn.create', 'webauthn.get') if kind == 'reg' else ('webauthn.get', 'webauthn.create')
        rs['spec'].setdefault('cd', {})['type'] = r.pick(
            [oth, oth, oth, '', own + ' ', own.upper(), 'payment.get', own[:-1], own + 'x', 'webauthn', own.title(),
             None, 1, [own], 'webauthn.', 'get', 'create', 'navigator.id.getAssertion'])
        return True

    def tw_tb(self, kind, op, rs, dl, cred, prim):
        r = self.r
        pol, cd = op['pol'], rs['spec'].setdefault('cd', {})
        k = r.randrange(8)
        if k == 0:
            pol['tb'] = r.pick([{'status': 'present', 'id': 'abc'}, {'status': 'supported'}])
            cd['drop'] = ['tokenBinding']
        elif k == 1:
            pol.pop('tb', None)
            cd['tb'] = r.pick([{'status': 'supported'}, {'status': 'present', 'id': 'abc'}])
        elif k == 2:
            pol['tb'] = {'status': 'present', 'id': 'abc'}
            cd['tb'] = {'status': 'present', 'id': r.pick(['abd', 'ab', 'abcd', 'ABC', ''])}
        elif k == 3:
            pol['tb'] = {'status': 'present', 'id': 'abc'}
            cd['tb'] = r.pick([{'status': 'supported'}, {'status': 'supported', 'id': 'abc'}])
        elif k == 4:
            pol['tb'] = {'status': 'supported'}
            cd['tb'] = r.pick([{'status': 'present', 'id': 'abc'}, {'status': 'supported', 'id': 'abc'}])
        elif k == 5:
            pol['tb'] = {'status': 'present', 'id': 'abc'}
            cd['tb'] = {'status': 'present'}
        elif k == 6:
            cd['tb'] = r.pick([{'status': 'maybe'}, {}, [], 'present', {'status': None}, 0, True,
                               {'status': 'present', 'id': 7}, {'id': 'abc'}, {'status': ['present']}])
        else:
            pol['tb'] = r.pick([{'status': 'present', 'id': 'abc'}, {'status': 'supported'}])
            cd['tb'] = None
        return True

    def tw_rpid(self, kind, op, rs, dl, cred, prim):
        r = self.r
        me = self.w['rps'][op['rp']]['id']
        opts = [x['id'] for x in self.w['rps'].values() if x['id'] != me]
        opts += [me + '.evil.org', 'evil.org', 'www.' + me, me.upper() if me.upper() != me else me.lower(),
                 me + '.', '', 'https://' + me, me.split('.', 1)[-1] + 'x', me[:-1], me + '\0']
        k = r.randrange(6)
        if k < 4:
            rs['spec']['rpid'] = r.pick(opts)
            if rs['spec']['rpid'] == me:
                rs['spec']['rpid'] = 'evil.org'
        elif k == 4 and r.p(0.6):
            # signed so by the device
            rs['spec']['hashxor'] = [r.pick([0, 31, 31, 1, 16, r.randrange(32)]), 1 << r.randrange(8)]
        elif k == 4:
            f = 'ao.authData' if kind == 'reg' else 'ad'
            self.tamper(dl, f=f, how='flip', at=r.randrange(32), bit=r.randrange(8))
        elif kind == 'auth':
            # the RP asks under another of its names than stored
            op['rp'] = r.pick(sorted(self.w['rps']))
        else:
            return False
        return True

    def tw_owner(self, kind, op, rs, dl, cred, prim):
        if kind == 'reg':
            return False
        r, spec, pol = self.r, rs['spec'], op['pol']
        us = sorted(self.w['users'])
        other = [u for u in us if u != cred['user']]
        uid = bytes.fromhex(self.w['users'][cred['user']]['id'])
        near = ['', '00', uid[:-1].hex(), (uid + b'\0').hex(), (uid[:-1] + bytes([uid[-1] ^ 1])).hex(),
                (uid * 2).hex(), (bytes([uid[0] ^ 0x20]) + uid[1:]).hex(), uid.hex().encode().hex(),
                base64.b64encode(uid).hex()] + [self.w['users'][u]['id'] for u in other]
        k = r.randrange(10)
        if k in (0, 1) and other:
            op['user'] = r.pick(other)              # login attempt for somebody else
            pol.pop('pass_user', None)
            if r.p(0.5):
                spec['uh'] = r.pick(['none', self.w['users'][op['user']]['id']])
        elif k == 2:
            pol.pop('pass_user', None)
            spec['uh'] = r.pick(near)
        elif k == 3:
            pol['pass_user'] = False
            spec['uh'] = r.pick(near)
        elif k == 4:
            pol['pass_user'] = False
            spec['uh'] = 'none'
        elif k == 5 and len(self.w['rps']) > 1:
            op['rp'] = r.pick([x for x in sorted(self.w['rps']) if x != cred['rp']])
            pol.pop('pass_rp', None)
        elif k == 6:
            pol['pass_rp'] = False
            if r.p(0.5):
                self.adm.append({'op': 'admin', 'act': 'setrp', 'tenant': cred['tenant'], 'cred': cred['m'],
                                 'rpid': r.pick([None, None, 'evil.org'] + [x['id'] for x in self.w['rps'].values()])})
        elif k == 7:
            # credential the RP never stored
            self.tamper(dl, f='rawId', how=r.pick(['flip', 'trunc', 'append', 'zero', 'prepend']), at=r.randrange(64), bit=0,
                        n=0, v='00', fixid=1)
        elif k == 8 and len(self.w['tenants']) > 1:
            op['tenant'] = r.pick([x for x in sorted(self.w['tenants']) if x != cred['tenant']])
        elif k == 9 and other:
            self.adm.append({'op': 'admin', 'act': 'give', 'tenant': cred['tenant'], 'cred': cred['m'],
                             'user': r.pick(other)})
        else:
            return False
        return True

    def tw_allow(self, kind, op, rs, dl, cred, prim):
        if kind == 'reg':
            return False
        r = self.r
        al = []
        for _ in range(r.pick([0, 0, 1, 1, 2, 4, 4, 30])):
            al.append(r.pick(['zz1', 'zz2', 'hex:', 'hex:00'] + [x['m'] for x in self.creds if x['m'] != cred['m']]
                             + ['near']))
        from sim.core import stream
        n = cred.get('cidlen', 16)
        cid = stream(n, self.seed, 'cid', cred['m'])
        for i, a in enumerate(al):
            if a == 'near':
                al[i] = 'hex:' + r.pick([cid[:-1], cid + b'\0', cid[:8], cid[::-1], b'\0' + cid, cid[1:], cid[-8:], cid[:8] + cid,
                                         cid[:-1] + bytes([cid[-1] ^ 1])]).hex()
        op['pol']['allow'] = al
        if al and r.p(0.4):
            # the response says it is an allowed one, in a member that is not the credential id
            x = r.pick(al)
            if x.startswith('hex:'):
                v = bytes.fromhex(x[4:])
            else:
                o = next((c for c in self.creds if c['m'] == x), None)
                v = stream(16, self.seed, 'allow', x) if o is None else stream(o.get('cidlen', 16), self.seed, 'cid', x)
            self.tamper(dl, f=r.pick(['j:id', 'j:id', 'j:zz', 'j:response.id']), how='set',
                        v=r.pick([b64u(v), base64.b64encode(v).decode()]))
        return True

    def tw_flags(self, kind, op, rs, dl, cred, prim):
        r, spec, pol = self.r, rs['spec'], op['pol']
        k = r.randrange(4)
        if k == 0:
            pol['uv'] = True
            spec['flags'] = (1 | r.randrange(64)) & ~4
        elif k == 1:
            spec['flags'] = r.randrange(64) & ~1
        elif k == 2:
            spec['flags'] = r.randrange(64)
            if r.p(0.5):
                pol['uv'] = True
        else:
            # pure unrelated bits, honest otherwise
            spec['flags'] = 5 | r.randrange(64)
            pol['uv'] = True
        return True

    def tw_ext(self, kind, op, rs, dl, cred, prim):
        r, spec, pol = self.r, rs['spec'], op['pol']
        k = r.randrange(7)
        if k == 6 and self.demands:
            # a demand the RP also made before; now some of it is missing
            pol['exts'] = r.pick(self.demands)
            have = [n for n in pol['exts'] if r.p(0.5)][1:]
            spec['exts'] = {n: self.ext_output(n) for n in have}
            if not have and r.p(0.5):
                spec.pop('exts')
        elif k in (0, 6):
            pol['exts'] = [r.pick(self.EXTN)]
            spec.pop('exts', None)
        elif k in (1, 2):
            names = r.sample(self.EXTN, r.randrange(1, 5))
            spec['exts'] = {n: self.ext_output(n) for n in names[1:]}
            pol['exts'] = sorted(names)
        elif k == 3:
            n = r.pick(self.EXTN)       # falsy outputs count as present
            spec['exts'] = {n: {'appid': False, 'authnSel': False, 'biometricPerfBounds': False, 'txAuthSimple': '',
                                'txAuthGeneric': h(b''), 'uvi': h(b''), 'exts': [], 'uvm': [],
                                'loc': {'latitude': 0, 'longitude': 0, 'accuracy': 0}}[n]}
            pol['exts'] = [n]
        elif k == 4:
            names = r.sample(self.EXTN, r.randrange(2, 9))
            spec['exts'] = {n: self.ext_output(n) for n in names}
            pol['exts'] = sorted(names[:r.randrange(1, len(names) + 1)])
        else:
            # outputs in the client's JSON instead of the signed authenticator data
            n = r.pick(self.EXTN)
            pol['exts'] = [n]
            spec.pop('exts', None)
            spec.setdefault('cd', {})['extra'] = {'clientExtensions': {n: True}, n: True}
        return True

    def tw_att(self, kind, op, rs, dl, cred, prim):
        if not self.tw_att1(kind, op, rs, dl, cred, prim):
            return False
        spec = rs['spec']
        if spec.get('fmt') == 'android-key' and self.r.p(0.5):
            self.kd_rest(spec.setdefault('att', {}))
        return True

    def tw_att1(self, kind, op, rs, dl, cred, prim):
        if kind != 'reg':
            return False
        r, spec = self.r, rs['spec']
        a = spec.setdefault('att', {})
        k = r.randrange(20)
        if k < 8:
            spec['fmt'] = 'fido-u2f'
            spec['crv'], spec['alg'] = 'P-256', 'ES256'
            spec.pop('keyseed', None)
            a.clear()
            j = r.randrange(12)
            if j == 0:
                a['over'] = {r.pick(['prefix', 'rp', 'cdh', 'cid', 'pk']): 'other'}
            elif j == 1:
                a['over'] = {r.pick(['prefix', 'rp', 'cdh', 'cid', 'pk']): 'empty'}
            elif j == 2:
                a['over'] = {'pk': r.pick(['noprefix', 'otherkey', 'compressed', 'swapxy', 'other_y'])}
            elif j == 3:
                a['signer'] = 'rogue'
            elif j == 4:
                a['ncerts'] = r.pick([0, 2, 3])
            elif j == 5:
                a['chain'] = 1
            elif j == 6:
                a['cert'] = r.pick(['ec384', 'ec521', 'eck1', 'ecbp', 'ed25519', 'rsa', 'garbage', 'torn'])
            elif j == 7:
                spec['crv'], spec['alg'] = r.pick(KTYPES[1:])
            elif j == 8:
                a['hash'] = r.pick(['ES384', 'ES512'])
            elif j == 9:
                if self.nm > 1 and r.p(0.6):
                    self.tamper(dl, f='ao.attStmt', how=r.pick(['splice', 'splicek']), k='sig',
                                m='m%d' % r.randrange(self.nm - 1))
                else:
                    self.tamper(dl, **dict(self.bytes_edit('ao.attStmt'), k=r.pick(['sig', 'sig', 'x5c'])))
            elif j == 10:
                # the signed statement carried over to altered authenticator data
                self.tamper(dl, **self.bytes_edit('ao.authData'))
            else:
                self.tamper(dl, f='cdj', how=r.pick(['append', 'prepend']), v='20')
        elif k < 17:
            spec['fmt'] = 'android-key'
            a.clear()
            j = r.randrange(22)
            old = [x for x in self.infos if x['kind'] == 'reg']
            if j in (18, 19) and old:
                # the same device key once more, certified for another registration
                o = r.pick(old)
                sp = next((e[2]['spec'] for e in self.ev if e[2].get('m') == o['m'] and e[2]['op'] == 'respond'), None)
                if sp is not None and sp.get('fmt') in ('android-key', None):
                    spec['crv'], spec['alg'] = sp['crv'], sp['alg']
                    spec['keyseed'] = sp.get('keyseed') or '%s|cred|%s' % (self.seed, o['m'])
                    if r.p(0.7):
                        self.tamper(dl, f='ao.attStmt', how='splicek', k=r.pick(['x5c', 'x5c', 'sig']), m=o['m'])
                    return True
            if j == 0:
                a['leaf'] = r.pick(['same', 'P-256', 'P-384', 'Ed25519'])
            elif j == 1:
                a['leaf'] = 'same'
                a['signer'] = 'cred'
            elif j == 2:
                a['signer'] = 'rogue'
            elif j == 3:
                a['kdch'] = r.pick(['other', 'empty', 'prefix', 'flip', 'raw', 'suffix', 'double', 'lead', 'hex'])
            elif j == 4:
                a['sw'] = {'600': ['null', 0]}
            elif j == 5:
                a['tee'] = {'1': ['set', [2]], '702': ['int', 0], '600': ['null', 0]}
            elif j == 6:
                a['tee'] = {'1': ['set', [2]], '702': ['int', r.pick([1, 2, 3, 255, 256])]}
            elif j == 7:
                a['tee'] = {'1': ['set', r.pick([[], [3], [0], [1, 3], [20], [12]])], '702': ['int', 0]}
            elif j == 8:
                a['tee'] = {'702': ['int', 0]}
                if r.p(0.5):
                    a['sw'] = {'1': ['set', [2]]}
            elif j == 9:
                a['tee'] = {'1': ['set', [2]]}
                if r.p(0.5):
                    a['sw'] = {'702': ['int', 0]}
            elif j == 10:
                a['tee'] = {}
                a['sw'] = {'1': ['set', [2]], '702': ['int', 0]}
            elif j == 11:
                a[r.pick(['noext', 'otherext', 'noext'])] = 1
                if 'otherext' in a:
                    a['noext'] = 1
            elif j == 12:
                a['overm'] = r.pick(['ad', 'cdh', 'swap', 'adflip', 'noad'])
            elif j == 13:
                a['kdtorn'] = r.randrange(1, 40)
            elif j == 14:
                if r.p(0.5):
                    a['ncerts'] = 0
                else:
                    a['chain'] = 1
                    a['rev'] = 1
            elif j == 15:
                a['alg'] = r.pick(['ES256', 'ES384', 'ES512', 'EdDSA', -257, 'RS256', 0])
            elif j == 16:
                a['leafrsa'] = 1
            else:
                self.tamper(dl, **dict(self.bytes_edit(r.pick(['ao.attStmt', 'ao.attStmt', 'ao.authData'])),
                                       k=r.pick(['sig', 'sig', 'sig', 'x5c'])))
                if r.p(0.4):
                    spec['crv'], spec['alg'] = r.pick(KTYPES[3:])
        elif k < 19:
            spec['fmt'] = r.pick(['packed', 'packed', 'tpm', 'android-safetynet'])
            a.clear()
            if r.p(0.5) and spec['fmt'] != 'android-safetynet':
                a['variant'] = r.pick(['x5c', 'ecdaa'])
            if r.p(0.4):
                a['edit'] = r.pick([{'sig': h(b'')}, {'sig': h(b'\0')}, {'x5c': []}, {'x5c': 'DROP'}, {'alg': -7},
                                    {'alg': 'ES256'}, {'alg': -8}, {'response': h(b'')}, {'ver': ''}, {'certInfo': h(b'')},
                                    {'pubArea': h(b'')}, {'ecdaaKeyId': h(b'')}, {'sig': h(b''), 'x5c': 'DROP'}])
            elif r.p(0.3):
                self.tamper(dl, **dict(self.bytes_edit('ao.attStmt'), k='sig'))
        else:
            spec['fmt'] = r.pick(['none', 'apple', '', 'compound', 'None', 'fido-u2F'])
            a.clear()
            if spec['fmt'] == 'none' and r.p(0.7):
                a['edit'] = r.pick([{'sig': h(b'x')}, {'x5c': []}, {'alg': -7}])
        return True

    def tw_count(self, kind, op, rs, dl, cred, prim):
        if kind == 'reg':
            rs['spec']['count'] = self.r.pick(COUNTS)
            return True
        r, spec = self.r, rs['spec']
        k = r.randrange(8)
        if k == 0:
            spec['count'] = r.pick(COUNTS)
        elif k == 1:
            spec['inc'] = r.pick([0, 0, -1, -2, -256, 2**31, 2**31 + 1])
        elif k == 2:
            spec['clone'] = 'k'
        elif k == 3:
            spec['clone'] = 'k'
            spec['inc'] = r.pick([0, 1, 2, 3])
        elif k == 4:
            self.adm.append({'op': 'admin', 'act': 'setcount', 'tenant': cred['tenant'], 'cred': cred['m'],
                             'count': r.pick(COUNTS + [None, None])})
        elif k == 5:
            op['pol']['ignore'] = True
            spec['inc'] = r.pick([0, -1, 1, -300])
        elif k == 6:
            spec['count'] = 0
        else:
            # same instant, two devices
            spec['inc'] = 1
            self.add(0, {'op': 'nop'})
            dl['twin'] = 1
        return True

    def tw_malform(self, kind, op, rs, dl, cred, prim):
        r = self.r
        if kind == 'reg':
            k = r.randrange(9)
            if k == 0:
                return self.tamper(dl, f='ao.' + r.pick(['fmt', 'attStmt', 'authData']), how='drop')
            if k == 1:
                return self.tamper(dl, f='ao.' + r.pick(['fmt', 'attStmt', 'authData']), how='set', v=r.pick(ODD))
            if k == 2:
                return self.tamper(dl, f='attobj', how='setb', v=r.pick(HOSTILE))
            if k == 3:
                return self.tamper(dl, **self.bytes_edit('attobj'))
            if k == 4:
                rs['spec'].setdefault('att', {}).setdefault('edit', {})[r.pick(['sig', 'x5c', 'alg', 'ver', 'zz'])] = \
                    r.pick(ODD + ['DROP'])
                return True
            if k == 5:
                e = rs['spec'].setdefault('keyedit', {'$m': []})
                if r.p(0.3):
                    # equal or neighbouring values of another type
                    from sim.crypto import ALG_VALUE, CRV_VALUE
                    crv, alg = rs['spec']['crv'], rs['spec']['alg']
                    kt = 2 if crv.startswith('P') else 1
                    e['$m'].append(r.pick([[1, float(kt)], [1, True], [3, float(ALG_VALUE[alg])], [-1, float(CRV_VALUE[crv])],
                                           [-1, True], [4, [True]], [4, [2.0]], [4, {'1': 2}], [2, 'kid'], [5, ''], [1, str(kt)],
                                           [3, str(ALG_VALUE[alg])], [-1, crv.lower()], [1, {'a': 1}], [4, 2], [4, 'sign']]))
                    return True
                e['$m'].append([r.pick([1, 3, -1, -2, -3, 2, 4, 5, 99, -4]), r.pick(ODD + ['DROP', 'DROP', 1, 2, -7, -8, [2, 'x'], [[]], [11]])])
                return True
            if k == 6:
                rs['spec']['cosetrunc'] = r.randrange(1, 60)
                return True
            if k == 7:
                e = rs['spec'].setdefault('keyedit', {'$m': []})
                n = r.pick([0, 1, 31, 33, 64, 65, 47, 66])
                e['$m'].append([r.pick([-2, -3]), h(b'\x01' * n)])
                return True
            return self.tamper(dl, f='ao.fmt', how='set', v=r.pick(['', 'x', 'NONE', 'none ', 'packed', 'tpm',
                                                                   'fido-u2f', 'android-key', 'android-safetynet', 'none']))
        return self.tamper(dl, **self.bytes_edit(r.pick(['ad', 'ad', 'sig', 'cdj'])))

    def tw_cdmal(self, kind, op, rs, dl, cred, prim):
        r = self.r
        cd = rs['spec'].setdefault('cd', {})
        k = r.randrange(4)
        if k == 0:
            cd['raw'] = r.pick(CDRAW)
        elif k == 1:
            cd['drop'] = [r.pick(['type', 'challenge', 'origin'])]
        elif k == 2:
            cd[r.pick(['type', 'challenge', 'origin', 'tb'])] = r.pick(
                [None, 0, 1, True, [], {}, ['webauthn.get'], 1.5, '\ud800', '', 10**30, -1, {'a': 1}])
        elif r.p(0.5):
            cd['glue'] = r.pick(GLUE)
        elif r.p(0.4):
            cd['enc'] = r.pick(['utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-32-be', 'latin-1', 'utf-7', 'cp037'])
            cd['extra'] = {'é': 'ü'}
            cd['layout'] = 8
        else:
            return self.tamper(dl, **self.bytes_edit('cdj'))
        return True

    def confuse(self, v):
        r = self.r
        if isinstance(v, (list, dict)) and '$h' not in v and v and r.p(0.85):
            if isinstance(v, list):
                i = r.randrange(len(v))
                return v[:i] + [self.confuse(v[i])] + v[i + 1:]
            k = r.pick(sorted(v))
            return dict(v, **{k: self.confuse(v[k])})
        if isinstance(v, bool):
            return r.pick([int(v), float(v), str(v).lower(), None, h(bytes([v]))])
        if isinstance(v, (int, float)):
            o = [bool(v), str(v), None, [v], h(b'\x01'), {'$raw': 'f97e00'}]
            if isinstance(v, int) and abs(v) < 2**53:
                o += [float(v), float(v)]
            return r.pick(o + [bool(v)])
        if isinstance(v, str):
            return r.pick([h(v.encode()), [v], None, 0, {v: v}, list(v)])
        if isinstance(v, dict) and '$h' in v:
            b = bytes.fromhex(v['$h'])
            return r.pick([b.decode('latin-1'), list(b[:8]), None, 0, [v]])
        if isinstance(v, list):
            return r.pick([{str(i): x for i, x in enumerate(v)}, None, '', h(b''), 0, [v]])
        return r.pick([list(v.values()) if isinstance(v, dict) else [v], None, '', 0, [v]])

    def tw_admal(self, kind, op, rs, dl, cred, prim):
        r, spec = self.r, rs['spec']
        f = 'ao.authData' if kind == 'reg' else 'ad'
        k = r.randrange(9)
        if k == 0:
            spec['adtail'] = r.pick(['00', 'f6', 'a0', 'ff', '80', '00' * 40, 'a16561707069 64f5'.replace(' ', '')])
        elif k == 1:
            spec['adtrunc'] = r.randrange(1, 120)
        elif k == 2:
            # claim parts that are not there / hide parts that are
            spec['flagxor'] = r.pick([64, 128, 192])
            if r.p(0.5):
                spec['keepatt' if r.p(0.5) else 'keepext'] = 1
        elif k == 3 and r.p(0.6):
            # one leaf of a well-formed value gets a neighbouring type
            spec['exts'] = {n: self.ext_output(n) for n in r.sample(self.EXTN, r.randrange(1, 3))}
            n = r.pick(sorted(spec['exts']))
            if n == 'uvm' and not any(spec['exts'][n]):
                spec['exts'][n] = [[2, 1, 4]]
            spec['exts'][n] = self.confuse(spec['exts'][n])
        elif k == 3:
            spec['exts'] = r.pick([{'appid': 1}, {'appid': 'true'}, {'txAuthSimple': h(b'x')}, {'uvi': 'x'}, {'uvm': 1},
                                   {'uvm': [1]}, {'uvm': [['x']]}, {'loc': []}, {'loc': {'latitude': 'x'}}, {'exts': 'x'},
                                   {'exts': [1]}, {'loc': {'zz': 1}}, {'unknown': True}, {'$m': [[1, True]]}, [], 0,
                                   'appid', {'biometricPerfBounds': 0}, {'authnSel': None}, {'uvm': [[None]]},
                                   {'loc': {'latitude': True}}, {'uvm': {}}, {'hmac-secret': True}, {'credProps': {}}])
        elif k == 4:
            self.tamper(dl, f=f, how='setb', v=r.pick(HOSTILE + ['', '00' * 36, '00' * 37]))
        elif k == 5:
            # extension bytes replaced by hostile CBOR
            spec['exts'] = {'$raw': r.pick(HOSTILE)}
        elif k == 6 and kind == 'reg':
            # credential ID length lies
            self.tamper(dl, f=f, how='byte', at=53 + r.randrange(2), v=r.pick([0, 1, 15, 17, 255, 128]))
        elif k == 7 and kind == 'reg':
            spec['keyedit'] = {'$m': [[r.pick([1, -2, 3, 7]), {'$raw': r.pick(HOSTILE)}]]}
        else:
            self.tamper(dl, **self.bytes_edit(f))
        return True

    def tw_jmal(self, kind, op, rs, dl, cred, prim):
        r = self.r
        keys = ['id', 'rawId', 'type', 'response', 'response.clientDataJSON', 'response.clientDataJSON', 'zz',
                'response.zz']
        keys += ['response.attestationObject'] * 2 if kind == 'reg' else [
            'response.authenticatorData', 'response.signature', 'response.userHandle']
        p = 'j:' + r.pick(keys)
        k = r.randrange(6)
        if k == 0:
            return self.tamper(dl, f=p, how='drop')
        if k in (1, 2):
            return self.tamper(dl, f=p, how='set', v=r.pick(
                [None, 0, 1, True, False, [], {}, '', 'AAAA', 'A', 'é', 1.5, ['x'], {'a': 1}, '\ud800', '!!!!', '====',
                 'AA==', 10**30, 'x' * 3000, [[[[[]]]]]]))
        if k == 3:
            return self.tamper(dl, f=p, how='trunc', n=r.pick([1, 2, 3, 5]))
        if k == 4:
            return self.tamper(dl, f=p, how=r.pick(['urlsafe', 'unpad']))
        if r.p(0.5):
            return self.tamper(dl, f=p, how='ins', at=r.randrange(500), v=r.pick(['\n', ' ', '=', '-', 'é', '\0', '!']))
        return self.tamper(dl, f=p, how='rename', v=r.pick(['attestationObject', 'authenticatorData', 'raw_id', 'userHandle']))

    # ---------------------------------------------------------------- whole plan
    def plan(self):
        r = self.r
        self.world()
        self.creds, self.infos, self.adm, self.demands = [], [], [], []
        n = r.randrange(self.P['n'][0], self.P['n'][1] + 1)
        long = r.p(self.P['p_long'])    # a long life of one process
        if long:
            n = r.randrange(50, 110)
            self.P['p_restart'] = 0
            self.P['p_reg'] = max(0.5, self.P['p_reg'])
            self.P['p_twist'] *= 0.5
        burst = r.p(0.4) and max(self.P['p_burst'], self.P['p_batch'] * 0.25)
        t = 0.0
        for i in range(n):
            if not self.creds or r.p(self.P['p_reg']):
                info = self.ceremony(t, 'reg')
                if not info['bad'] or r.p(0.15):
                    sp = next(e[2] for e in self.ev if e[2].get('m') == info['m'] and e[2]['op'] == 'respond')['spec']
                    info['cidlen'] = sp.get('cidlen', 16)
                    self.creds.append(info)
                    t = max(t, info['t']) if r.p(0.9) else t
            else:
                cred = r.pick(self.creds[-3:]) if not long and r.p(0.7) else r.pick(self.creds)
                if r.p(self.P['p_admin']):
                    self.admin(t, cred)
                k = len(self.adm)
                info = self.ceremony(t, 'auth', cred)
                for a in self.adm[k:]:
                    self.add(r.pick([t, info['t'] - 0.005]), a)
                if info['bad'] and r.p(self.P['p_follow']):
                    t = max(t, info['t']) + r.expovariate(0.5)
                    self.ceremony(t, 'auth', cred, clean=True)
            if self.pname == 'C06' and r.p(0.25) and self.creds:
                # two logins of one device in flight at once
                c = r.pick(self.creds)
                x = self.ceremony(t, 'auth', c)
                self.ceremony(x['t'] - 0.02, 'auth', c)
            if r.p(burst):
                t = self.burst(t)
            t += 0.2 + r.expovariate(0.7)
            if r.p(self.P['p_restart']):
                self.add(t, {'op': 'restart'})
            if r.p(self.P['p_newbackend']):
                self.add(t, {'op': 'newbackend', 'tenant': r.pick(sorted(self.w['tenants']))})
        # replays of anything said so far, at the end
        if r.p(self.P['p_dup']) and self.infos:
            x = r.pick(self.infos)
            self.add(t + 5, {'op': 'deliver', 'm': x['m'], 'c': x['c'], 'mc': x['c'], 'dup': 1})
        # faults over: a fresh ceremony works at the first attempt
        good = [c for c in self.creds if not c['bad']]
        tt = max(t, max(e[0] for e in self.ev)) + 10
        if self.P['p_follow'] and r.p(0.6):
            if good and r.p(0.6):
                self.ceremony(tt, 'auth', r.pick(good), clean=True)
            else:
                x = self.ceremony(tt, 'reg', clean=True)
                if r.p(0.5):
                    x['zero'] = False
                    x['cidlen'] = 16
                    self.ceremony(x['t'] + 1, 'auth', x, clean=True)
        self.ev.sort(key=lambda e: (e[0], e[1]))
        ops = [e[2] for e in self.ev if e[2]['op'] != 'nop']
        for o in ops:
            o.pop('twin', None)
        ops = self.weather(ops)
        ops = self.batches(ops)
        for o in ops:
            for x in o.get('ops', [o]):
                x.pop('burst', None)
        return {'kind': 'lib', 'profile': self.pname, 'seed': self.seed, 'solo': self.P['solo'],
                'world': self.w, 'ops': ops}

    def burst(self, t):
        """Many requests at the same moment."""
        r = self.r
        t = max([t] + [e[0] for e in self.ev]) + 1
        good = [c for c in self.creds if not c['bad']]
        r.shuffle(good)
        k = r.randrange(3, 9)
        tag = 'b%d' % self.nc
        for i in range(k):
            n = len(self.ev)
            if good and r.p(0.8):
                self.ceremony(t, 'auth', good.pop() if r.p(0.9) else good[0], clean=r.p(0.7))
            else:
                self.ceremony(t, 'reg', clean=r.p(0.7))
            first = True
            for j in range(n, len(self.ev)):
                o = self.ev[j][2]
                if o['op'] == 'deliver' and first:
                    first = False
                    o['burst'] = tag
                    x = t + 0.5
                else:
                    x = t + (0.6 if o['op'] == 'deliver' else 0.1 if o['op'] == 'respond' else 0)
                o['t'] = round(x, 3)
                self.ev[j] = (o['t'], self.ev[j][1], o)
        return t + 1

    def admin(self, t, cred):
        r = self.r
        act = r.pick(['rekey', 'rekey', 'rekey', 'revoke', 'give', 'setcount', 'setrp'])
        op = {'op': 'admin', 'act': act, 'tenant': cred['tenant'], 'cred': cred['m']}
        if act == 'rekey':
            op['crv'], op['alg'] = r.pick(KTYPES) if r.p(0.4) else (cred['crv'] or 'P-256', dict(KTYPES)[cred['crv'] or 'P-256'])
            op['k'] = r.pick(['0', '1', '2', 'neg'])
            if r.p(0.5):
                op['keepkid'] = 1
            if r.p(0.35):
                op['move'] = 1
        elif act == 'give':
            op['user'] = r.pick(sorted(self.w['users']))
        elif act == 'setcount':
            op['count'] = r.pick(COUNTS + [None])
        elif act == 'setrp':
            op['rpid'] = r.pick([None] + [x['id'] for x in self.w['rps'].values()])
            if op['rpid'] is None:
                cred['rpstored'] = False
        self.add(t, op)

    def weather(self, ops):
        """Slow storage, jumping clocks, storage that scribbles on what it is given, threads that change."""
        r = self.r
        slow = r.p(0.2)
        skew = r.p(0.2)
        thr = r.p(0.3)
        if r.p(0.12):
            self.w['scribble'] = r.pick([1, 2, 3])
        out = []
        for o in ops:
            if o['op'] == 'deliver':
                if slow and r.p(0.4):
                    o['fault'] = dict(o.get('fault') or {}, slow={
                        k: r.pick([0.1, 1, 3, 6, 11, 31, 61, 400]) for k in r.pick([['get'], ['put'], ['get', 'put']])})
                if thr and r.p(0.5):
                    o['thr'] = r.randrange(1, 4)
                if skew and r.p(0.3):
                    out.append({'op': 'skew', 's': r.pick([-1, -5, -60, -3600, -86400, 1, 60, 3600, 86400, 86400 * 40]), 't': o['t']})
            out.append(o)
        return out

    def batches(self, ops):
        """Merge deliveries that arrive together into simultaneous requests."""
        r = self.r
        out = []
        i = 0
        while i < len(ops):
            o = ops[i]
            if o['op'] == 'deliver' and (r.p(self.P['p_batch']) or 'burst' in o):
                grp = [o]
                j = i + 1
                hold = []
                want = r.pick([2, 2, 2, 3, 3, 4, 5, 6])
                bt = o.get('burst')
                while j < len(ops) and (len(grp) < want if bt is None else ops[j].get('burst') == bt) \
                        and ops[j]['op'] in ('deliver', 'begin', 'respond'):
                    if ops[j]['op'] == 'deliver':
                        grp.append(ops[j])
                    else:
                        hold.append(ops[j])
                    j += 1
                if len(grp) > 1:
                    out.extend(hold)
                    sc = {'seed': r.randrange(1 << 30)}
                    k = r.randrange(4)
                    if bt is not None and r.p(0.7):
                        sc['p'] = r.pick([0.9, 0.5, 0.2])
                    elif k == 0:
                        sc['p'] = 0.3
                    elif k == 1:
                        sc['p'] = 0.03
                    else:
                        sc['points'] = r.randrange(1, 7)
                        sc['span'] = 220 * len(grp)
                        sc['p'] = 0.02
                    out.append({'op': 'batch', 't': o['t'], 'ops': grp, 'sched': sc})
                    i = j
                    continue
            out.append(o)
            i += 1
        return out


ODD = [None, 0, 1, -1, True, False, '', 'x', h(b''), h(b'x'), [], {}, 1.5, [1], {'a': 1}, [[]], 2**64 - 1, -2**63]

HOSTILE = [
    '', 'ff', 'a0', '80', 'f6', '00', 'f97e00', 'a1', 'a1ff', 'bf', '9f', '5f', '7f', 'bfff', '9fff', 'c0', 'c1', 'd8',
    '9bffffffffffffffff', '5bffffffffffffffff', '7bffffffffffffffff', 'bbffffffffffffffff', '9b00000000ffffffff',
    '5b0000000100000000', 'ba7fffffff', '9a7fffffff', '81' * 2000, 'a161' * 3, '81' * 400 + '00', 'a100' * 500,
    'd818' * 300, 'c249' + 'ff' * 9, 'c48201c24101', 'c5821b7fffffffffffffff01', 'c5823b7fffffffffffffff01',
    'c482' + '1b7fffffffffffffff' + '01', 'd81e820100', 'd81e820000', 'd8236128', 'd82361' + '28', 'd8252f', 'd81c81d81d00',
    'd81d00', 'd81ca100d81d00', 'd90102' + '81' + '80', 'c074323031332d30332d3231', 'c0613b', 'c1fb7e37e43c8800759c',
    'c1f97c00', 'c1f97e00', 'f4', 'f5', 'f7', 'f818', 'f8ff', 'e0', 'fa7fc00000', 'fb7ff0000000000000', '1c', '1d', '3e',
    '5e', '7c', '61ff', '62c328', '7f61ff', '7f4161ff', '5f6161ff', 'a1a000', 'a18000', 'a1f600', 'a201000100',
    'd9d9f7a0', 'd9010441c0', 'd9010543c00018', 'da00010000a0', 'db000000000000010000', 'd82470' + '00' * 16, 'd82560']

GLUE = [x.hex() for x in [b'"zz":"a' + y + b'b"' for y in (
    b'\0', b'\x01', b'\t', b'\n', b'\r', b'\x1f', b'\x7f', b'\xed\xa0\x80', b'\xed\xb0\x80', b'\xed\xa0\xbd\xed\xb8\x80', b'\xc0\xaf',
    b'\xc0\x80', b'\xf4\x90\x80\x80', b'\xff', b'\x80', b'\xc3', b'\xe2\x80\xa8', b'\xef\xbf\xbf', b'\xf0\x9f\x98\x80',
    b'\xef\xbb\xbf', b'\\x41', b'\\u12', b"\\'", b'\\ud800', b'\\u0000', b'\\/', b'\\')] + [
    b'"zz":' + y for y in (
        b'01', b'.5', b'1.', b'+1', b'-', b"'a'", b'undefined', b'True', b'None', b'0x10', b'1e5', b'1_0', b'[1,]', b'{"a":1,}',
        b'{a:1}', b'1,', b'"a" "b"', b'/**/1', b'1//', b'1#', b'nul', b'[1 2]', b'-0', b'1E+2', b'"', b'[', b'}', b'1}', b'"a"}')] + [
    b'zz:1', b'"zz"', b'"zz"=1', b',"zz":1', b'"zz":1;', b'1:1', b'null:1', b'"\xff":1', b'"\t":1', b'"\xed\xa0\x80":1', b'\x0c"zz":1',
    b'\xc2\xa0"zz":1', b'\xe2\x80\x83"zz":1', b'\0"zz":1']]

CDRAW = [x.hex() for x in (
    b'', b'null', b'[]', b'{}', b'0', b'"x"', b'true', b'{', b'{"type":"webauthn.get"', b'\xff\xfe', b'\xef\xbb\xbf{}',
    b'[' * 3000, b'{"a":' * 2000, b'[' * 100000, b'{"type":NaN}', b'{"type":1e999}',
    b'{"type":' + b'9' * 5000 + b'}',
    b'{"type":"webauthn.get","type":"webauthn.create","challenge":"","origin":"https://example.com"}',
    b'{"type":"webauthn.create","challenge":"AA","origin":"https://example.com"}',
    b'{"type":"webauthn.get","challenge":"AA","origin":"https://[::1"}',
    b'{"type":"webauthn.get","challenge":"AA","origin":"https://a:b:c"}',
    b'{"type":"webauthn.get","challenge":"\\ud800","origin":"https://\\ud800"}',
    b'{"type":"\\u0000","challenge":"AA","origin":"\\u0000://"}', '{"é":1}'.encode('latin-1'),
    '{"type":"x"}'.encode('utf-16'), b'\0', b' ', b'{"type":"webauthn.create","challenge":"A","origin":"https://x"}',
    b"{'type': 'webauthn.create'}", b'{"type":"webauthn.create"}trailing', b'Infinity', b'-')]


def make(seed, pname):
    return Gen(seed, pname).plan()
