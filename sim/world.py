"""Executes a plan against the real library with simulated clients, authenticators, network
attacker, storage, crashes and threads. Pure function of (plan, /repo)."""
import copy
import os
import traceback

from sim import authr, env, sched
from sim.core import H, stream
from sim.crypto import ALG_VALUE, CRV_VALUE, key
from sim.truth import (CLASSES, COORD_NAMES, EXT_NAMES, OWNER, Ctx, judge_auth,
                       judge_reg)

EXT_KEY = {'appid': 'appid', 'txAuthSimple': 'tx_auth_simple', 'txAuthGeneric': 'tx_auth_generic',
           'authnSel': 'authn_sel', 'exts': 'exts', 'uvi': 'uvi', 'loc': 'loc', 'uvm': 'uvm',
           'biometricPerfBounds': 'biometric_perf_bounds'}
COORD_KEY = {'latitude': 'latitude', 'longitude': 'longitude', 'altitude': 'altitude',
             'accuracy': 'accuracy', 'altitudeAccuracy': 'altitude_accuracy', 'heading': 'heading',
             'speed': 'speed'}
_OPS = {'sign': 'SIGN', 'verify': 'VERIFY', 'encrypt': 'ENCRYPT', 'decrypt': 'DECRYPT',
        'wrap key': 'WRAP_KEY', 'unwrap key': 'UNWRAP_KEY', 'derive key': 'DERIVE_KEY',
        'derive bits': 'DERIVE_BITS', 'MAC create': 'MAC_CREATE', 'MAC verify': 'MAC_VERIFY'}
_OPS_R = {v: k for k, v in _OPS.items()}
_ALG_R = {'ES256': 'ES256', 'ES384': 'ES384', 'ES512': 'ES512', 'EDDSA': 'EdDSA'}
_CRV_R = {'P_256': 'P-256', 'P_384': 'P-384', 'P_521': 'P-521', 'ED25519': 'Ed25519', 'ED448': 'Ed448'}


class NoneLike:
    """Equal to None, but not None."""

    def __eq__(self, o):
        return o is None or isinstance(o, NoneLike)

    def __hash__(self):
        return 0

    def __bool__(self):
        return False

    def __repr__(self):
        return 'NoneLike()'


class Conflict(Exception):
    pass


def lib_exc(name):
    from sim.repo import errors
    std = {'KeyError': KeyError, 'ValueError': ValueError, 'AttributeError': AttributeError,
           'TypeError': TypeError, 'OSError': OSError, 'TimeoutError': TimeoutError,
           'RuntimeError': RuntimeError, 'EOFError': EOFError, 'AssertionError': AssertionError,
           'MemoryError': MemoryError, 'LookupError': LookupError, 'StopIteration': StopIteration,
           'ConnectionError': ConnectionError, 'NotImplementedError': NotImplementedError,
           'RecursionError': RecursionError, 'PermissionError': PermissionError,
           'Exception': Exception, 'InterruptedError': InterruptedError,
           'BlockingIOError': BlockingIOError, 'UnicodeError': UnicodeError,
           'ArithmeticError': ArithmeticError, 'FileNotFoundError': FileNotFoundError,
           'UserWarning': UserWarning, 'DeprecationWarning': DeprecationWarning, 'SystemError': SystemError,
           'BufferError': BufferError, 'StopAsyncIteration': StopAsyncIteration, 'IndexError': IndexError,
           'ImportError': ImportError, 'ReferenceError': ReferenceError, 'NameError': NameError,
           'ConnectionResetError': ConnectionResetError, 'SyntaxError': SyntaxError}
    if name in std:
        return std[name]
    if name in sched.INTERRUPTS:
        return sched.INTERRUPTS[name]
    return getattr(errors, name)


STORE_EXCS = ['KeyError', 'ValueError', 'AttributeError', 'TypeError', 'OSError', 'TimeoutError',
              'RuntimeError', 'EOFError', 'AssertionError', 'MemoryError', 'LookupError',
              'StopIteration', 'ConnectionError', 'NotImplementedError', 'RecursionError',
              'PermissionError', 'Exception', 'InterruptedError', 'BlockingIOError', 'UnicodeError',
              'ArithmeticError', 'FileNotFoundError', 'UserWarning', 'DeprecationWarning', 'SystemError', 'BufferError',
              'StopAsyncIteration', 'IndexError', 'ImportError', 'ReferenceError', 'NameError', 'ConnectionResetError',
              'SyntaxError', 'CredentialDataError', 'ParserError',
              'VerificationError', 'UnimplementedError', 'InternalError', 'DecodingError',
              'SignatureCountError', 'WebAuthnRPError', 'AttestationError', 'ValidationError']


EXC_ARGS = [('simulated storage failure',), (), ('database is locked',), ('UNIQUE constraint failed: credential.id',),
            ('',), ('not found',), (5, 'Input/output error'), ('timeout',), ('duplicate key',), ('deadlock detected, retry',)]


def weird(v):
    """Non-None storage return values."""
    return {'False': False, '0': 0, '0.0': 0.0, 'str': '', 'bytes': b'', 'list': [], 'dict': {},
            'tuple': (), 'True': True, '1': 1, 'err': 'error', 'nonelike': NoneLike(),
            'exc': ValueError('x'), 'notimpl': NotImplemented, 'ok': 'OK', 'set': set()}[v]


WEIRD = ['False', '0', '0.0', 'str', 'bytes', 'list', 'dict', 'tuple', 'True', '1', 'err', 'nonelike',
         'exc', 'notimpl', 'ok', 'set']


# ---------------------------------------------------------------- semantic views of library objects

def key_view(cpk):
    """Library CredentialPublicKey -> semantic dict."""
    kty = cpk.kty.name
    d = {'kty': kty, 'alg': _ALG_R.get(cpk.alg.name) if cpk.alg is not None else None,
         'crv': _CRV_R.get(cpk.crv.name), 'x': cpk.x, 'y': getattr(cpk, 'y', None), 'kid': cpk.kid,
         'ops': None if cpk.key_ops is None else [_OPS_R.get(o.name) for o in cpk.key_ops],
         'iv': cpk.base_IV}
    return d


def ext_view(e):
    if e is None:
        return None
    out = {}
    for n in EXT_NAMES:
        v = getattr(e, EXT_KEY[n])
        if v is None:
            continue
        if n == 'loc':
            v = {c: getattr(v, COORD_KEY[c]) for c in COORD_NAMES if getattr(v, COORD_KEY[c]) is not None}
        elif n == 'exts':
            v = list(v)
        out[n] = v
    return out


def resp_view(c):
    r = c.response
    d = {'rawId': c.raw_id, 'id': c.id, 'type': c.type, 'cdj': r.client_data_JSON}
    for n in ('attestation_object', 'authenticator_data', 'signature', 'user_handle'):
        if hasattr(r, n):
            d[n] = getattr(r, n)
    return d


def ent_view(u):
    if u is None:
        return None
    d = {'id': u.id, 'name': u.name, 'icon': getattr(u, 'icon', None)}
    if hasattr(u, 'display_name'):
        d['display'] = u.display_name
    return d


def strip_key(kd):
    return {k: v for k, v in kd.items() if k != 'forms'}


def same(a, b):
    """Deep equality with exact types for leaves (0 != False)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (type(a) is float and a != a and b != b)


# ---------------------------------------------------------------- storage

class Store:
    """The durable content of one tenant's storage: cid -> record."""

    def __init__(self, mode, with_rp, cas, regcount=False):
        self.mode = mode            # 'object' | 'blob'
        self.with_rp = with_rp
        self.cas = cas              # refuses stale counter updates
        self.regcount = regcount    # keeps the counter reported at registration
        self.recs = {}

    def snapshot(self, cid):
        r = self.recs.get(cid)
        return None if r is None else dict(r)


def build_cpk(kd, via):
    """Reference construction of a library key object from a semantic key dict."""
    from sim.repo import types as T
    kw = dict(kid=kd['kid'],
              alg=T.COSEAlgorithmIdentifier.Value[kd['alg'].upper()],
              key_ops=None if kd['ops'] is None else [T.COSEKeyOperation.Value[_OPS[o]] for o in kd['ops']],
              base_IV=kd['iv'])
    if kd['kty'] == 'EC2':
        return T.EC2CredentialPublicKey(kty=T.COSEKeyType.Value.EC2, x=kd['x'], y=kd['y'],
                                        crv=T.EC2Curve.Value[kd['crv'].replace('-', '_')], **kw)
    return T.OKPCredentialPublicKey(kty=T.COSEKeyType.Value.OKP, x=kd['x'],
                                    crv=T.OKPCurve.Value[kd['crv'].upper()], **kw)


def view_put_att(credential, att, att_type, user, rp, trusted_path):
    from cryptography.hazmat.primitives.serialization import Encoding
    view = {'fn': 'put_att', 'cred': resp_view(credential), 'user': ent_view(user),
            'rp': ent_view(rp), 'att_type': getattr(att_type, 'name', repr(att_type))}
    try:
        ad = att.auth_data
        acd = ad.attested_credential_data
        view.update(fmt=att.fmt.value, hash=ad.rp_id_hash, flags=ad.flags, count=ad.sign_count,
                    aaguid=acd.aaguid, cid=acd.credential_id, cidlen=acd.credential_id_length,
                    key=key_view(acd.credential_public_key), exts=ext_view(ad.extensions),
                    stmt=type(att.att_stmt).__name__,
                    path=None if trusted_path is None else
                    [c.public_bytes(Encoding.DER) for c in trusted_path])
    except Exception as e:
        view['broken'] = repr(e)
    return view


def view_put_auth(credential, ad, user, rp):
    view = {'fn': 'put_auth', 'cred': resp_view(credential), 'user': ent_view(user),
            'rp': ent_view(rp)}
    try:
        view.update(hash=ad.rp_id_hash, flags=ad.flags, count=ad.sign_count, exts=ext_view(ad.extensions))
    except Exception as e:
        view['broken'] = repr(e)
    return view


def make_registrar(world, store):
    from sim.repo import converters, registrars

    class SimRegistrar(registrars.CredentialsRegistrar):
        """The RP's storage layer with fault points; every call is recorded."""

        def _enter(self, fn, credential=None, cid=None):
            call = world.call(credential, cid)
            s = sched.CURRENT
            if s is not None:
                s.point(fn)
            if call.slow and fn in call.slow:
                world.stat('fault.store.slow')
                sched.sim_sleep(call.slow[fn])
            return call

        def register_credential_attestation(self, credential, att, att_type, user, rp,
                                            trusted_path=None):
            call = self._enter('put', credential)
            view = view_put_att(credential, att, att_type, user, rp, trusted_path)
            world.note(call, view)
            fault = call.take('put')
            if fault and not fault.get('after'):
                return world.fail(call, fault, view)
            cid = credential.raw_id
            cpk = att.auth_data.attested_credential_data.credential_public_key
            blob = None
            if store.mode == 'blob':
                try:
                    blob = converters.cose_key(cpk)
                except Exception as e:
                    if not str(e).startswith('injected at '):
                        view['ret'] = 'raise ' + type(e).__name__
                        view['codec'] = type(e).__name__
                    raise
            if cid in store.recs:
                view['ret'] = 'dup'
                return 'credential already registered'
            rec = {'user': user.id, 'uname': user.name, 'udisp': user.display_name,
                   'rp': rp.id if store.with_rp else None, 'rpname': rp.name,
                   'count': att.auth_data.sign_count if store.regcount else None,
                   'key': world.truth_key(call, view)}
            if store.mode == 'blob':
                rec['blob'] = blob
            else:
                rec['obj'] = cpk
            store.recs[cid] = rec
            view['stored'] = True
            world.scribble(att, att.auth_data, trusted_path)
            if fault:
                return world.fail(call, fault, view)
            return None

        def register_credential_assertion(self, credential, authenticator_data, user, rp):
            call = self._enter('put', credential)
            view = view_put_auth(credential, authenticator_data, user, rp)
            world.note(call, view)
            fault = call.take('put')
            if fault and not fault.get('after'):
                return world.fail(call, fault, view)
            rec = store.recs.get(credential.raw_id)
            if rec is None:
                view['ret'] = 'gone'
                return 'no such credential'
            new = authenticator_data.sign_count
            if store.cas and rec['count'] is not None and not (new == 0 and rec['count'] == 0) \
                    and new <= rec['count'] and not call.ignore:
                view['ret'] = 'stale'
                return 'stale counter'
            view['before'] = rec['count']
            rec['count'] = new
            view['stored'] = True
            world.scribble(None, authenticator_data, None)
            if fault:
                return world.fail(call, fault, view)
            return None

        def get_credential_data(self, credential_id):
            call = self._enter('get', cid=credential_id)
            view = {'fn': 'get', 'cid': credential_id}
            world.note(call, view)
            fault = call.take('get')
            if fault:
                return world.fail(call, fault, view)
            rec = store.recs.get(credential_id)
            view['rec'] = None if rec is None else dict(rec)
            if rec is None:
                return None
            try:
                return world.cred_data(dict(rec), store)     # one consistent snapshot
            except Exception as e:
                if str(e).startswith('injected at '):
                    raise
                if store.mode != 'blob':
                    world.harness.append(traceback.format_exc())
                view['ret'] = 'raise ' + type(e).__name__
                view['codec'] = type(e).__name__
                raise

    return SimRegistrar()


# ---------------------------------------------------------------- calls

class Call:
    """One handled response."""

    def __init__(self, idx, fault, ignore):
        self.idx = idx
        self.reg = []
        self.fault = dict(fault or {})
        self.slow = self.fault.pop('slow', None)
        self.judged = False
        self.ignore = ignore
        self.outcome = None
        self.fired = []
        self.intr_fired = False
        self.lines = 0

    def take(self, where):
        return self.fault.pop(where, None)


class Ceremony:
    pass


class World:
    def __init__(self, plan, capture=None, cover=None):
        self.plan = plan
        self.w = plan['world']
        self.seed = plan['seed']
        self.cover = cover
        self.tenants, self.durable = {}, {}
        self.cers = {}
        self.msgs = {}
        self.creds = {}           # m-name -> credential material held by authenticators
        self.devcount = {}
        self.calls = []           # finished Call records
        self.violations = []
        self.stats = {}
        self.states = set()
        self.tl = {}
        self.cur = None
        self.known_certs = set()
        self.log = []
        self.solo_specs = []
        self.switches = {}         # op index -> recorded thread switches
        self.scheds = set()
        self.had = set()           # kinds of trouble seen so far: 'intr', 'store'
        self.next = 0
        self.harness = []
        self.ents = {}
        self.steps = {}            # (message, ceremony) -> steps its last undisturbed handling took
        self.mark = None           # callback(op index, in library?)
        self.t = 0
        self.off = self.skew = self.booted = 0.0
        self.jobs = []            # everything handled by this process
        self.ids = {}

    # -- bookkeeping
    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violate(self, tags, what, call=None, op=None):
        if isinstance(tags, str):
            tags = [tags]
        self.violations.append({'tags': sorted(set(tags)), 'what': what,
                                'op': self.opi, 'call': None if call is None else call.idx})

    def call(self, credential=None, cid=None):
        """Whose storage call is this?"""
        s = sched.CURRENT
        me = s.me() if s is not None else None
        if me is not None and me < s.n:
            return self.cur if s is sched.MAIN else self.tl[me]
        if me is None:
            return self.cur
        raw = cid if credential is None else credential.raw_id
        # a thread of the library's own
        d = sched.duty()
        if d is not None and (d.credential is credential or d.credential.raw_id == raw):
            return d.call
        for same in (lambda c: c is credential or c.raw_id is cid, lambda c: c.raw_id == raw):
            for j in reversed(self.jobs):
                if j.credential is not None and same(j.credential):
                    return j.call
        w = sched.worker()
        if w is not None:
            return self.tl[w]
        return self.cur or self.jobs[-1].call

    def note(self, call, view):
        call.reg.append(view)
        if call.outcome is not None and view['fn'] != 'get':
            view['late'] = True
            if call.judged:
                self.violate(['C07', 'C08'], 'a report to storage long after the response was decided', call)

    def set_clock(self):
        env.set_now(self.t + self.off + self.skew)
        env.set_mono(1000 + self.t + self.off - self.booted)

    def advance(self, dt):
        self.off += dt
        self.set_clock()

    def fail(self, call, fault, view):
        if 'exc' in fault:
            call.fired.append(fault['exc'])
            view['ret'] = 'raise ' + fault['exc']
            self.stat('fault.store.' + ('kill' if fault['exc'] in sched.KILLS else 'raise')
                      + ('_after' if fault.get('after') else ''))
            raise lib_exc(fault['exc'])(*EXC_ARGS[fault.get('msg', 0)])
        call.fired.append('ret')
        view['ret'] = 'value ' + fault['ret']
        self.stat('fault.store.return' + ('_after' if fault.get('after') else ''))
        if fault['ret'] == 'garbage':
            return {'not': 'a credential'}
        return weird(fault['ret'])

    def scribble(self, att, ad, path):
        """Storage makes the objects it was given its own."""
        how = self.w.get('scribble')
        if not how:
            return
        self.stat('fault.store.scribble')
        try:
            if how & 1:
                ad.flags, ad.sign_count, ad.rp_id_hash = 0xff, 0, b''
                if path:
                    path.clear()
            if how & 2:
                e = ad.extensions
                if e is not None:
                    if e.exts:
                        e.exts.clear()
                    e.appid, e.uvi, e.loc = True, b'scribble', None
                ad.extensions = None
                if ad.attested_credential_data is not None:
                    ad.attested_credential_data.credential_id = b'scribble'
                if att is not None and getattr(att.att_stmt, 'x5c', None):
                    att.att_stmt.x5c.clear()
        except (AttributeError, TypeError):       # they do not let themselves be changed
            pass

    def truth_key(self, call, view):
        r = call.truth_dec
        if r and r.get('r') and r['r'].get('att') and r['r']['att'].get('key'):
            return strip_key(r['r']['att']['key'])
        # not judgeable by the oracle: remember what the library parsed
        return view.get('key')

    def cred_data(self, rec, store):
        from sim.repo import parsers, registrars, types as T
        if store.mode == 'blob':
            cpk = parsers.parse_cose_key(rec['blob'])
        elif rec.get('obj') is not None:
            cpk = rec['obj']
        else:
            cpk = build_cpk(rec['key'], None)
        return registrars.CredentialData(
            cpk, rec['count'],
            T.PublicKeyCredentialUserEntity(name=rec['uname'], id=rec['user'], display_name=rec['udisp']),
            None if rec['rp'] is None else T.PublicKeyCredentialRpEntity(name=rec['rpname'], id=rec['rp']))

    # -- tenants
    def tenant(self, name, st=None):
        if name not in self.tenants:
            from sim.repo import backends
            tw = self.w['tenants'].get(name) or {}
            if st is None:
                st = Store(tw.get('mode', 'object'), tw.get('with_rp', True), tw.get('cas', False),
                           tw.get('regcount', False))
            reg = make_registrar(self, st)
            self.tenants[name] = {'store': st, 'reg': reg, 'be': backends.CredentialsBackend(reg)}
        return self.tenants[name]

    def user_id(self, u):
        d = self.w['users'].get(u) or {}
        return bytes.fromhex(d['id']) if 'id' in d else stream(d.get('len', 16), self.seed, 'user', u)

    def rp_id(self, r):
        return (self.w['rps'].get(r) or {}).get('id', 'example.com')

    # -- main loop
    def run(self):
        ops = self.plan['ops']
        env.start(self.seed, self.t)
        sched.begin()
        env.on_advance(self.advance)
        self.booted = self.t + self.off
        self.set_clock()
        self.reopen()
        seen = 0
        while self.next < len(ops):
            i = self.next
            op = ops[i]
            self.next += 1
            self.opi = i
            if op['op'] == 'restart':
                self.stat('fault.restart')
                return 'restart'
            self.t = op.get('t', self.t)
            self.set_clock()
            getattr(self, 'op_' + op['op'])(op)
            if len(self.violations) > seen:
                # violations of other properties are counted, the run goes on behind them
                seen = len(self.violations)
                if seen > 40 or any(self.plan.get('profile', '') in v['tags'] for v in self.violations):
                    break
        return 'end'

    def result(self):
        if self.harness:
            raise RuntimeError('harness: ' + self.harness[0])
        return {'violations': self.violations, 'stats': self.stats, 'states': self.states, 'log': self.log,
                'solo': self.solo_specs, 'cover': self.cover or set(), 'switches': self.switches,
                'calls': len(self.calls), 't': self.t, 'sched': self.scheds}

    def __getstate__(self):
        """What survives a crash of the process: storage, and the rest of the world."""
        d = dict(self.__dict__)
        d['tenants'] = {}
        for n, t in self.tenants.items():
            st = t['store']
            recs = {k: {f: v for f, v in r.items() if f != 'obj'} for k, r in st.recs.items()}
            d['tenants'][n] = (st.mode, st.with_rp, st.cas, st.regcount, recs)
        d['tl'], d['cur'], d['mark'], d['ents'], d['jobs'] = {}, None, None, {}, []
        d['calls'] = len(self.calls)
        return d

    def __setstate__(self, d):
        self.__dict__.update(d)
        self.calls = [None] * d['calls']
        self.durable = d['tenants']
        self.tenants = {}

    def reopen(self):
        """The restarted process opens its storage."""
        for n, (mode, with_rp, cas, rc, recs) in self.durable.items():
            self.tenant(n, Store(mode, with_rp, cas, rc))['store'].recs.update(recs)
        self.durable = {}

    # -- ops
    def op_begin(self, op):
        c = Ceremony()
        c.name, c.kind, c.op = op['c'], op['kind'], op
        c.tenant, c.user, c.rp = op['tenant'], op['user'], op['rp']
        c.pol = op.get('pol') or {}
        if 'chal' in c.pol:
            c.challenge = bytes.fromhex(c.pol['chal'])
        else:
            c.challenge = stream(c.pol.get('chlen', 32), self.seed, 'chal', c.name)
        c.origins = c.pol.get('origins', 'https://' + self.rp_id(c.rp))
        c.delivered = 0
        c.ok = 0
        self.cers[c.name] = c
        self.stat('ceremony.' + c.kind)

    def client_origin(self, c):
        o = c.origins
        if isinstance(o, str):
            return o
        return o[0] if o else 'https://' + self.rp_id(c.rp)

    def op_respond(self, op):
        c = self.cers.get(op['c'])
        if c is None:
            return
        spec = op.get('spec') or {}
        tb = c.pol.get('tb')
        org = self.client_origin(c)
        if c.kind == 'reg':
            msg, cred = authr.build_reg(self.seed, op['m'], spec, c.challenge, self.rp_id(c.rp), org, tb)
            cred['user'] = c.user
            self.creds[op['m']] = cred
            self.known_certs.update(cred['certs'])
        else:
            cred = self.creds.get(spec.get('cred'))
            if cred is None:
                return
            dev = spec.get('clone', '') + '|' + cred['name']
            base = self.devcount.get(dev, self.devcount.get('|' + cred['name'], cred['count']))
            cnt = spec['count'] if 'count' in spec else (base + spec.get('inc', 1)) & 0xffffffff
            self.devcount[dev] = cnt
            handle = self.user_id(spec.get('uhuser', cred['user']))
            msg = authr.build_auth(self.seed, op['m'], spec, c.challenge, self.rp_id(c.rp), org, tb,
                                   cred, cnt, handle)
        self.msgs[op['m']] = msg

    def policy(self, c):
        p = c.pol
        q = {'challenge': c.challenge, 'origins': c.origins, 'tb': p.get('tb'), 'uv': p.get('uv', False),
             'exts': p.get('exts')}
        if c.kind == 'reg':
            q['rpid'] = self.rp_id(c.rp)
        else:
            q['rp'] = self.rp_id(c.rp) if p.get('pass_rp', True) else None
            q['user'] = self.user_id(c.user) if p.get('pass_user', True) else None
            al = p.get('allow')
            if al is not None:
                q['allow'] = [self.allow_id(a) for a in al]
            q['ignore'] = p.get('ignore', False)
        return q

    def allow_id(self, a):
        if a.startswith('hex:'):
            return bytes.fromhex(a[4:])
        cred = self.creds.get(a)
        return cred['cid'] if cred is not None else stream(16, self.seed, 'allow', a)

    def prepare(self, op, concurrent=False):
        """Resolve a deliver op -> job or None."""
        m = self.msgs.get(op['m'])
        c = self.cers.get(op['c'])
        if m is None or c is None:
            return None
        tam = op.get('tamper') or []
        msg, jed = authr.apply_tamper(m, tam, self.msgs.get)
        cj = authr.apply_json(authr.encode(msg), jed)
        job = Job()
        job.op, job.c, job.cj = op, c, cj
        job.kind = c.kind
        job.pol = self.policy(c)
        job.call = Call(len(self.calls), op.get('fault'), job.pol.get('ignore', False))
        self.calls.append(job.call)
        job.tenant = self.tenant(c.tenant)
        job.pre = {k: dict(v) for k, v in job.tenant['store'].recs.items()}
        job.tampered = bool(tam)
        if tam:
            for t in tam:
                self.stat('fault.net.' + t['f'].split('.')[0].split(':')[0] + '_' + t['how'])
        if op['m'] in self.msgs and c.name != self.ids.get(op['m'], op.get('mc', c.name)):
            self.stat('fault.net.cross_delivery')
        if op.get('dup'):
            self.stat('fault.net.duplicate')
        if op.get('late'):
            self.stat('fault.net.delayed')
        job.ctx = Ctx(self.known_certs)
        if job.kind == 'reg':
            job.truth = judge_reg(cj, job.pol, job.ctx)
            job.call.truth_dec = job.truth.dec
        else:
            job.truth = None
            job.call.truth_dec = None
        job.intr = op.get('intr')
        if job.intr and job.intr[0] == 'end':
            # so many steps before the point where the same response was decided last time
            n = self.steps.get((op['m'], op['c']))
            job.intr = None if n is None or n <= job.intr[1] else [n - job.intr[1], job.intr[2]]
        job.args = self.arguments(job, concurrent)
        return job

    def keep(self, what, make, mode=None):
        """The RP's own policy objects: kept for the life of the process, built anew for every request, or one
        object per kind that the RP edits in place between requests."""
        if mode == 1:
            return make()
        if mode == 2:
            new, v = make(), self.ents.get(('edited', what[0], type(make()).__name__))
            if v is None or not isinstance(v, (list, set)):
                self.ents['edited', what[0], type(new).__name__] = new
                return new
            v.clear()
            (v.update if isinstance(v, set) else v.extend)(new)
            return v
        v = self.ents.get(what)
        if v is None:
            v = self.ents[what] = make()
        return v

    def entity(self, mode, concurrent, what, cls, kw):
        """A user or RP object: one per entity for the life of the process, a new one per request, or a single one
        that the RP fills in anew before each request."""
        if mode == 2 and not concurrent:
            e = self.ents.get(('edited', what[0]))
            if e is None:
                e = self.ents['edited', what[0]] = cls(**kw)
            for k, v in kw.items():
                setattr(e, k, v)
            return e
        if mode:
            return cls(**kw)
        if what not in self.ents:
            self.ents[what] = cls(**kw)
        return self.ents[what]

    def arguments(self, job, concurrent=False):
        from sim.repo import types as T
        c, p = job.c, job.c.pol
        mode = p.get('keep')
        if mode == 2 and concurrent:
            mode = 1

        def keep(what, make):
            return self.keep(what, make, mode)
        kw = {'expected_challenge': job.pol['challenge'], 'expected_origin': job.pol['origins']}
        if isinstance(kw['expected_origin'], list):
            kw['expected_origin'] = keep(('o', p.get('origins_as'), tuple(kw['expected_origin'])), lambda: {
                'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[p.get('origins_as', 'list')](
                    job.pol['origins']))
        if p.get('tb') is not None:
            kw['token_binding'] = keep(('tb', repr(p['tb'])), lambda: T.TokenBinding(
                status=T.TokenBindingStatus(p['tb']['status']), id=p['tb'].get('id')))
        if p.get('uv') or p.get('uv_explicit'):
            kw['require_user_verification'] = bool(p.get('uv'))
        if p.get('exts') is not None:
            kw['expected_extensions'] = keep(('x', tuple(sorted(p['exts']))),
                                             lambda: {T.ExtensionIdentifier(e) for e in p['exts']})
        # like a real RP, the caller keeps one entity object per user and RP, and its policies
        u, r = self.w['users'].get(c.user) or {}, self.w['rps'].get(c.rp) or {}
        user = self.entity(p.get('ents'), concurrent, ('u', c.user), T.PublicKeyCredentialUserEntity, {
            'name': u.get('name', c.user), 'id': self.user_id(c.user), 'display_name': u.get('display', c.user)})
        rp = self.entity(p.get('ents'), concurrent, ('r', c.rp), T.PublicKeyCredentialRpEntity, {
            'name': r.get('name', c.rp), 'id': self.rp_id(c.rp)})
        if job.kind == 'reg':
            kw['user'], kw['rp'] = user, rp
        else:
            if p.get('pass_user', True):
                kw['user'] = user
            if p.get('pass_rp', True):
                kw['rp'] = rp
            if job.pol.get('allow') is not None:
                kw['allow_credentials'] = keep(('a', tuple(job.pol['allow'])), lambda: [
                    T.PublicKeyCredentialDescriptor(id=i, type=T.PublicKeyCredentialType.PUBLIC_KEY)
                    for i in job.pol['allow']])
            if p.get('ignore'):
                kw['ignore_clone_error'] = True
        return kw

    def perform(self, job):
        """Run the real code for one job in the current thread; never raises."""
        from sim.repo import WebAuthnRPError, parsers
        call = job.call
        guard = sched.Guard(interrupt=job.intr, sched=sched.RUNNING, cover=self.cover)
        job.guard = guard
        stage = ['parse']

        def go():
            credential = parsers.parse_public_key_credential(job.cj)
            stage[0] = 'handle'
            kw = dict(job.args)
            be = job.tenant['be']
            job.before = args_view(job.args, credential)
            job.credential = credential
            sched.duty(job)
            if job.kind == 'reg':
                return be.handle_credential_attestation(credential=credential, **kw)
            return be.handle_credential_assertion(credential=credential, **kw)

        self.jobs.append(job)
        if self.mark is not None:
            self.mark(self.opi, 1)
        try:
            guard.call(go)
            call.outcome = ('ok',)
        except WebAuthnRPError as e:
            call.outcome = ('lib', type(e).__name__, [k.__name__ for k in type(e).__mro__])
        except (sched.SimHang, sched.SimDeadlock) as e:
            call.outcome = ('hang', type(e).__name__)
        except BaseException as e:    # noqa: B902 - this is the observation point
            call.outcome = ('foreign', type(e).__name__,
                            'injected' if (job.intr and isinstance(e, sched.INTERRUPTS[job.intr[1]])
                                           and guard.fired is not None)
                            or type(e).__name__ in call.fired else 'own')
        if self.mark is not None:
            self.mark(self.opi, 0)
        call.stage = stage[0]
        call.intr_fired = guard.fired is not None
        call.lines = guard.n
        if job.op and job.intr is None and not call.fired:
            self.steps[job.op['m'], job.op['c']] = guard.n
        if guard.fired is not None:
            self.stat('fault.interrupt.' + job.intr[1])
            call.intr_where = guard.fired

    def op_deliver(self, op):
        job = self.prepare(op)
        if job is None:
            return
        sched.MAIN.chooser = self.idle_chooser(op)
        if op.get('thr'):
            self.tl = {0: job.call}
            sched.Scheduler([lambda: self.perform(job)], sched.MAIN.chooser, op['thr'] - 1).run()
            self.tl = {}
        else:
            self.cur = job.call
            self.perform(job)
            self.cur = None
        sched.MAIN.drain()
        self.judge(job)
        self.solo(job)

    def idle_chooser(self, op):
        """Interleaving of a single request with threads the library itself has started."""
        c = []

        def choose(step, cur, runnable, kind):
            if not c:
                from sim.core import Rng
                c.append(sched.seeded_chooser(Rng(self.seed, 'idle', op.get('m'), op.get('c')), 0.02))
            return c[0](step, cur, runnable, kind)
        return choose

    def op_skew(self, op):
        self.stat('fault.clock_jump')
        self.skew += op['s']
        self.set_clock()

    def op_batch(self, op):
        jobs = [j for j in (self.prepare(o, True) for o in op['ops']) if j is not None]
        if not jobs:
            return
        sc = op.get('sched') or {}
        if 'explicit' in sc:
            ch = sched.explicit_chooser(sc['explicit'])
        else:
            from sim.core import Rng
            rng = Rng(self.seed, 'sched', sc.get('seed', 0))
            pts = None
            if sc.get('points'):
                span = sc.get('span', 1500)
                pts = {rng.randrange(1, span) for _ in range(sc['points'])}
            ch = sched.seeded_chooser(rng, sc.get('p', 0.02), pts)
        def thunk(j):
            return lambda: self.perform(j)
        sched.MAIN.chooser = self.idle_chooser(jobs[0].op)
        s = sched.Scheduler([thunk(j) for j in jobs], ch)
        self.tl = {i: j.call for i, j in enumerate(jobs)}
        s.run()
        self.tl = {}
        for j in jobs:
            if j.call.outcome is None:
                j.call.outcome = ('hang', 'SimDeadlock')
        sched.MAIN.drain()
        self.stat('batches')
        self.stat('switches', len(s.switches))
        self.stat('yield_points', s.step)
        self.switches[self.opi] = s.switches
        self.scheds.add(H(repr([(j.kind, j.call.outcome and j.call.outcome[:2]) for j in jobs]),
                          repr(s.switches))[:8].hex())
        for j in jobs:
            self.judge(j, concurrent=True)
        for j in jobs:
            self.solo(j)

    def op_newbackend(self, op):
        from sim.repo import backends
        t = self.tenant(op['tenant'])
        t['be'] = backends.CredentialsBackend(t['reg'])

    def op_admin(self, op):
        """RP-side changes to storage between ceremonies."""
        st = self.tenant(op['tenant'])['store']
        cred = self.creds.get(op.get('cred'))
        if cred is None or cred['cid'] not in st.recs:
            return
        rec = st.recs[cred['cid']]
        act = op['act']
        self.stat('admin.' + act)
        if act == 'revoke':
            del st.recs[cred['cid']]
        elif act == 'setcount':
            rec['count'] = op['count']
        elif act == 'give':
            u = op['user']
            rec['user'] = self.user_id(u)
            rec['uname'] = (self.w['users'].get(u) or {}).get('name', u)
            rec['udisp'] = (self.w['users'].get(u) or {}).get('display', u)
        elif act == 'rekey':
            crv = op.get('crv', 'P-256')
            alg = op.get('alg', 'ES256')
            k = key(crv, '%s|rekey|%s' % (self.seed, op.get('k', '0')))
            if op.get('k') == 'neg' and cred['key'].y is not None:
                k, alg = key(cred['key'].crv, 'neg:' + cred['key'].seed), cred['alg']
                crv = k.crv
            kd = {'kty': 'EC2' if k.y is not None else 'OKP', 'alg': alg, 'crv': crv, 'x': k.x, 'y': k.y,
                  'kid': rec['key'].get('kid') if op.get('keepkid') else None, 'ops': None, 'iv': None}
            rec['key'] = kd
            if st.mode == 'blob':
                from sim import cbor
                rec['blob'] = cbor.enc(authr.cose_dict(k, {'alg': alg}))
            else:
                rec['obj'] = build_cpk(kd, None)
            if op.get('move'):
                cred['key'], cred['alg'] = k, alg      # the authenticator has the new key too
        elif act == 'setrp':
            rec['rp'] = op.get('rpid')

    # -- judgement
    def judge(self, job, concurrent=False):
        call, out = job.call, job.call.outcome
        call.judged = True
        gets = [r for r in call.reg if r['fn'] == 'get']
        puts = [r for r in call.reg if r['fn'] != 'get']
        cname = job.c.name
        raw = None
        truths = []
        if job.kind == 'reg':
            truths = [job.truth]
        else:
            recs = []
            for g in gets:
                if 'rec' in g:
                    recs.append(g['rec'])
            if not recs:
                if gets:
                    recs = ['unknown']
                else:
                    t0 = judge_auth(job.cj, job.pol, 'unknown', job.ctx)
                    rid = (t0.dec.get('f') or {}).get('rawId')
                    recs = [job.pre.get(rid)] if rid is not None else ['unknown']
            truths = [judge_auth(job.cj, job.pol, r, job.ctx) for r in recs]
        job.truths = truths
        T = truths[-1]
        job.truth = T
        reasons = T.reasons
        common = set.intersection(*[t.reasons for t in truths])
        self.states.add((job.kind, tuple(sorted(reasons)), out[0:2], T.clean))
        self.log.append((call.idx, cname, out[:2], sorted(reasons), [r['fn'] for r in call.reg]))
        desc = '%s of %s for %s: ' % ({'reg': 'registration', 'auth': 'authentication'}[job.kind],
                                      job.op['m'], cname)
        V = lambda tags, what: self.violate(list(tags), desc + what, call)  # noqa: E731

        killed = [f for f in call.fired if f in sched.KILLS]
        storefail = [p for p in call.reg if p.get('ret')]
        injected = call.intr_fired
        if injected:
            self.stat('interrupted')
        # C10/C12: how the call may end
        if out[0] == 'hang':
            honest = not reasons and T.clean and not injected and not storefail
            V(['C10'] + ['C11'] * bool(concurrent) + ['C09'] * honest, 'did not terminate (%s)' % out[1])
            return
        if out[0] == 'foreign':
            if out[2] == 'injected':
                pass
            else:
                honest = not reasons and T.clean and not injected and not storefail
                V(['C10'] + ['C09'] * honest, 'raised %s, not a library error' % out[1])
                return
        if injected and job.intr[1] in sched.KILLS and out[0] != 'foreign':
            V(['C12'], 'interrupted by %s at %s:%s but ended with %r' % (
                job.intr[1], call.intr_where[0], call.intr_where[1], out[:2]))
            return
        if killed and out[0] != 'foreign' and not injected:      # (a second exception may replace the first)
            V(['C12'], 'storage call was killed by %s but the ceremony ended with %r' % (killed[0], out[:2]))
            return
        # C07: number of reports
        if len(puts) > 1:
            V(['C07', 'C08'] if storefail else ['C07'], '%d reports to storage' % len(puts))
            return
        if out[0] == 'ok':
            self.stat('accepted')
            job.c.ok += 1
            if common:
                tags = {OWNER[r] for r in common}
                if injected or call.fired:
                    tags |= {'C12'} if injected or killed else {'C08'}
                V(tags, 'accepted although it violates: %s' % ', '.join(sorted(common)))
                return
            bad = storefail
            if bad:
                V(['C07', 'C08'] + (['C12'] if killed else []),
                  'reported success although storage said %s' % bad[0]['ret'])
                return
            if not puts:
                V(['C07'] + (['C12'] if injected else []), 'reported success without telling storage')
                return
            if puts[0].get('late'):
                V(['C07', 'C08'], 'reported success before storage was told')
                return
            if job.kind == 'auth' and not gets:
                V(['C01', 'C03'], 'accepted without looking up the credential')
                return
        if puts:
            # something was reported: it must have been acceptable and exact
            if common:
                V({'C07'} | {OWNER[r] for r in common},
                  'reported to storage although it violates: %s' % ', '.join(sorted(common)))
                return
            gf = [g for g in gets if g.get('ret', '').startswith('raise')]
            if gf:
                V(['C08'], 'wrote to storage after a failed read')
                return
            w = self.check_put(job, puts[0])
            if w:
                V([w[0]] + (['C07'] if w[0] != 'C07' else []), w[1])
                return
            if puts[0].get('before') is not None and puts[0].get('stored') and not job.pol.get('ignore'):
                b, n = puts[0]['before'], puts[0]['count']
                if n <= b and not (n == 0 and b == 0) and (job.tenant['store'].cas or not concurrent):
                    V(['C06'], 'stored counter went from %d to %d' % (b, n))
                    return
        if out[0] == 'lib':
            self.stat('rejected')
            mro = out[2]
            if storefail and not injected:
                last = storefail[-1]
                if last.get('codec') and not call.fired and not reasons and T.clean:
                    V(['C09', 'C13'], 'the stored key could not be %s (%s)' % (
                        'read back' if last['fn'] == 'get' else 'encoded', last['codec']))
                    return
                if last['fn'] == 'get' and last['ret'].startswith('value '):
                    return
                if 'RegistrationError' not in mro:
                    V(['C08', 'C15'], 'storage failed (%s) but the error was %s' % (last['ret'], out[1]))
                return
            if injected:
                return
            if puts:
                V(['C07', 'C09', 'C15'], 'rejected with %s although storage accepted the report' % out[1])
                return
            if not reasons:
                if T.clean:
                    V(['C09', 'C15'] + self.clean_tags(job), 'honest response rejected with %s' % out[1])
                return
            if T.whole and T.clean and all(t.whole and t.clean for t in truths):
                allowed = set()
                for t in truths:
                    for r in t.reasons:
                        allowed |= CLASSES[r]
                if not (allowed & set(mro)):
                    V(['C15'], 'violates %s but was rejected with %s' % (', '.join(sorted(reasons)), out[1]))
                    return
        # inputs left alone
        if out[0] in ('ok', 'lib') and getattr(job, 'before', None) is not None:
            if not same(job.before, args_view(job.args, job.credential)):
                V(['C11'], 'the caller\'s objects were modified')

    def clean_tags(self, job):
        """An honest response was refused: which guarantees does that break besides C09?"""
        tags = []
        r = job.truth.dec.get('r') or {}
        att = job.truth.dec.get('att')
        if job.kind == 'reg' and att and att[0] == 'BASIC':
            tags.append('C05')
        if job.kind == 'auth':
            g = [x for x in job.call.reg if x['fn'] == 'get' and x.get('rec')]
            if g and g[-1]['rec']['count'] is not None:
                if 'SignatureCountError' in job.call.outcome[2]:
                    tags.append('C06')
            if g and 'blob' in g[-1]['rec'] and 'RegistrationError' in job.call.outcome[2]:
                tags.append('C13')
        cls = job.call.outcome[2]
        by = {'OriginError': 'C02', 'ChallengeError': 'C02', 'TokenBindingError': 'C02',
              'RPIDHashError': 'C02', 'ClientDataTypeError': 'C02', 'UserIDError': 'C03',
              'UserHandleError': 'C03', 'RPIDError': 'C03', 'RPNotFoundError': 'C03',
              'CredentialNotAllowedError': 'C03', 'UserPresenceError': 'C04',
              'UserVerificationError': 'C04', 'ExtensionError': 'C04', 'AttestationError': 'C05',
              'SignatureCountError': 'C06', 'VerificationError': 'C01'}
        for n, tag in by.items():
            if n in cls:
                tags.append(tag)
        return tags

    def check_put(self, job, v):
        """Compare what storage was told with what the response says. -> (tag, text) or None"""
        t = job.truth.dec
        r, f = t.get('r'), t.get('f')
        if v.get('broken'):
            return ('C07', 'unusable report to storage: ' + v['broken'])
        if r is None or f is None:
            return None
        exp = {'rawId': f['rawId'], 'id': f['id'], 'type': f['type'], 'cdj': f['cdj']}
        if job.kind == 'reg':
            exp['attestation_object'] = f['ao']
        else:
            exp.update(authenticator_data=f['ad'], signature=f['sig'], user_handle=f['uh'])
        for k, x in exp.items():
            if not same(v['cred'].get(k), x):
                return ('C07', 'storage was told %s=%r, the response says %r' % (k, v['cred'].get(k), x))
        want = {'hash': r['hash'], 'flags': r['flags'], 'count': r['count']}
        if job.truth.whole:
            want['exts'] = r['exts']
        if job.kind == 'reg' and r['att'] is not None:
            att = r['att']
            want.update(aaguid=att['aaguid'], cid=att['cid'], cidlen=len(att['cid']), fmt=t['fmt'])
            if att['key'] is not None:
                want['key'] = strip_key(att['key'])
        for k, x in want.items():
            if not same(v.get(k), x):
                tag = 'C06' if k == 'count' else 'C13' if k == 'key' else 'C04' if k == 'flags' else 'C07'
                return (tag, 'storage was told %s=%r, the response says %r' % (k, v.get(k), x))
        if job.kind == 'reg' and 'att' in t:
            ty, leaf = t['att']
            if v['att_type'] != ty:
                return ('C05', 'storage was told attestation type %s, verified was %s' % (v['att_type'], ty))
            if leaf is None:
                if v['path'] not in (None, []):
                    return ('C05', 'storage was given a trust path for an unattested credential')
            elif not v['path'] or leaf[:len(v['path'][0])] != v['path'][0]:  # (bytes after the DER are ignored)
                return ('C05', 'storage was not given the verified certificate')
        u = self.w['users'].get(job.c.user) or {}
        me = {'id': self.user_id(job.c.user), 'name': u.get('name', job.c.user), 'icon': None,
              'display': u.get('display', job.c.user)}
        rr = self.w['rps'].get(job.c.rp) or {}
        myrp = {'id': self.rp_id(job.c.rp), 'name': rr.get('name', job.c.rp), 'icon': None}
        rec = None
        for g in job.call.reg:
            if g['fn'] == 'get' and g.get('rec'):
                rec = g['rec']
        if job.kind == 'auth' and rec is not None:
            if job.pol.get('user') is None:
                me = {'id': rec['user'], 'name': rec['uname'], 'icon': None, 'display': rec['udisp']}
            if job.pol.get('rp') is None:
                myrp = {'id': rec['rp'], 'name': rec['rpname'], 'icon': None}
        # equal identity is required; the entity object may come from the caller or from storage
        if v['user'] is None or v['user']['id'] != me['id']:
            return ('C07', 'storage was told user %r, the ceremony was for %r' % (v['user'], me))
        if v['rp'] is None or v['rp']['id'] != myrp['id']:
            return ('C07', 'storage was told RP %r, the ceremony was for %r' % (v['rp'], myrp))
        if job.kind == 'reg' and not (same(v['user'], me) and same(v['rp'], myrp)):
            return ('C07', 'storage was told %r / %r, the ceremony was for %r / %r' % (
                v['user'], v['rp'], me, myrp))
        return None

    # -- isolation (C11): the same call alone in a fresh process
    def solo(self, job):
        mode = self.plan.get('solo')
        call = job.call
        mine = any(v['call'] == call.idx for v in self.violations)
        if not (mode == 'all' or mine or (mode == 'some' and call.idx % 4 == 0)) or call.intr_fired:
            pass
        else:
            replies = {'get': [], 'put': []}
            for r in call.reg:
                if r['fn'] == 'get':
                    rep = {'ret': r['ret']} if 'ret' in r else {
                        'rec': None if r['rec'] is None else {k: v for k, v in r['rec'].items() if k != 'obj'}}
                    replies['get'].append(rep)
                else:
                    replies['put'].append({'ret': r.get('ret')})
            self.solo_specs.append({
                'idx': call.idx, 'op': self.opi, 't': self.t + self.off + self.skew, 'seed': self.seed, 'world': self.w, 'kind': job.kind,
                'cj': job.cj, 'c': job.c, 'pol': job.pol, 'replies': replies,
                'mode': job.tenant['store'].mode, 'outcome': call.outcome[:2],
                'puts': put_essence(call.reg), 'had': sorted(self.had), 'm': job.op['m']})
        if call.intr_fired:
            self.had.add('intr')
        if call.fired:
            self.had.add('store')


def put_essence(reg):
    return [{k: v for k, v in r.items() if k not in ('ret', 'stored', 'before')}
            for r in reg if r['fn'] != 'get']


def run_solo(spec):
    """Execute one recorded call alone: canned storage replies, nothing else ever handled here."""
    from sim.repo import backends, registrars
    w = World({'world': spec['world'], 'seed': spec['seed'], 'ops': []})
    w.opi = 0
    env.start(spec['seed'], spec.get('t', 0))
    sched.begin()
    st = Store(spec['mode'], True, False)
    call = Call(0, None, False)
    rep = spec['replies']

    def reply(kind):
        q = rep[kind]
        if not q:
            return {'ret': None} if kind == 'put' else {'rec': None}
        return q.pop(0) if len(q) > 1 else q[0]

    def say(r):
        ret = r['ret']
        if ret is None:
            return None
        if ret.startswith('raise '):
            raise lib_exc(ret[6:])('simulated storage failure')
        if ret == 'value garbage':
            return {'not': 'a credential'}
        if ret.startswith('value '):
            return weird(ret[6:])
        return {'dup': 'credential already registered', 'gone': 'no such credential',
                'stale': 'stale counter'}[ret]

    class Canned(registrars.CredentialsRegistrar):
        def register_credential_attestation(self, credential, att, att_type, user, rp, trusted_path=None):
            call.reg.append(view_put_att(credential, att, att_type, user, rp, trusted_path))
            return say(reply('put'))

        def register_credential_assertion(self, credential, authenticator_data, user, rp):
            call.reg.append(view_put_auth(credential, authenticator_data, user, rp))
            return say(reply('put'))

        def get_credential_data(self, credential_id):
            call.reg.append({'fn': 'get', 'cid': credential_id})
            r = reply('get')
            if 'ret' in r:
                return say(r)
            return None if r['rec'] is None else w.cred_data(r['rec'], st)

    job = Job()
    job.c, job.cj, job.kind, job.pol, job.call = spec['c'], spec['cj'], spec['kind'], spec['pol'], call
    job.tenant = {'be': backends.CredentialsBackend(Canned())}
    job.intr = None
    job.args = w.arguments(job)
    for v in rep.values():
        for r in v:
            if str(r.get('ret')).startswith('raise '):
                call.fired.append(r['ret'][6:])
    w.perform(job)
    sched.MAIN.drain()
    return call.outcome[:2], put_essence(call.reg)


def solo_violation(spec, got):
    out, puts = got
    if tuple(out) == tuple(spec['outcome']) and same(puts, spec['puts']):
        return None
    tags = ['C11']
    if 'intr' in spec['had']:
        tags.append('C12')
    if 'store' in spec['had']:
        tags.append('C08')
    a, b = ' '.join(spec['outcome']), ' '.join(out)
    if a == b:
        a, b = 'a different report to storage', 'another'
    return {'tags': tags, 'op': spec['op'], 'call': spec['idx'],
            'what': '%s of %s for %s: %s here, but %s when handled alone in a fresh process' % (
                {'reg': 'registration', 'auth': 'authentication'}[spec['kind']], spec['m'],
                spec['c'].name, a, b)}


class Job:
    before = op = None
    credential = None


def args_view(kw, cred):
    """Snapshot of the objects a caller passes in."""
    d = {}
    for k, v in kw.items():
        if k in ('user', 'rp'):
            d[k] = ent_view(v)
        elif k == 'expected_origin':
            d[k] = v if isinstance(v, str) else [type(v).__name__] + sorted(v)
        elif k == 'expected_extensions':
            d[k] = sorted(e.value for e in v)
        elif k == 'allow_credentials':
            d[k] = [(x.id, x.type.value, x.transports) for x in v]
        elif k == 'token_binding':
            d[k] = (v.status.value, v.id)
        else:
            d[k] = v
    d['credential'] = resp_view(cred)
    return d
