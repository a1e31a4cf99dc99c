"""Reference verifier: decides, independently of the code under test, which requirements a
delivered response violates.

Result: Truth with
  reasons  set of violated requirements (each one forces rejection)
  clean    True when the response is unambiguously well-formed, so that no reasons => must accept
  whole    True when everything could be judged (an empty/short reasons set is complete)
  dec      what the response says (what storage must be told)
"""
import base64
import binascii
import hashlib
import json
import re
import struct

from sim import cbor, der
from sim.crypto import (ALG_VALUE, COORD, CRV_VALUE, CURVES, HASHES, ref_public,
                        ref_verify)

VALUE_ALG = {v: k for k, v in ALG_VALUE.items()}
VALUE_CRV = {v: k for k, v in CRV_VALUE.items()}
EC_PAIRS = {('ES256', 'P-256'), ('ES384', 'P-384'), ('ES512', 'P-521')}
KEY_OPS = {1: 'sign', 2: 'verify', 3: 'encrypt', 4: 'decrypt', 5: 'wrap key', 6: 'unwrap key',
           7: 'derive key', 8: 'derive bits', 9: 'MAC create', 10: 'MAC verify'}
EXT_NAMES = ('appid', 'txAuthSimple', 'txAuthGeneric', 'authnSel', 'exts', 'uvi', 'loc', 'uvm',
             'biometricPerfBounds')
COORD_NAMES = ('latitude', 'longitude', 'altitude', 'accuracy', 'altitudeAccuracy', 'heading',
               'speed')


def sha256(b):
    return hashlib.sha256(b).digest()


class Truth:
    def __init__(self):
        self.reasons = set()
        self.clean = True
        self.whole = True
        self.dec = {}
        self.notes = []

    def bad(self, r):
        self.reasons.add(r)

    def unsure(self, why):
        self.clean = False
        self.notes.append(why)

    def blind(self, why):
        self.clean = False
        self.whole = False
        self.notes.append(why)


class _Dup(Exception):
    pass


def _pairs(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise _Dup()
        d[k] = v
    return d


def _const(c):
    raise _Dup()


def b64(t, s, what):
    """Standard base64 field. Returns bytes or None (malformed)."""
    if type(s) is not str:
        t.bad('malformed')
        t.notes.append(what + ' not str')
        return None
    try:
        v = base64.b64decode(s)
    except (ValueError, binascii.Error):
        t.bad('malformed')
        t.notes.append(what + ' base64')
        return None
    if base64.b64encode(v).decode() != s:
        t.unsure(what + ' non-canonical base64')
    return v


_ORIGIN = re.compile(r'\A(https?)://([a-z0-9_.-]+|\[[0-9a-f:.]+\])(?::([0-9]{1,5}))?\Z')


def _norm_origin(o):
    m = _ORIGIN.match(o)
    if not m:
        return None
    port = int(m.group(3)) if m.group(3) else {'http': 80, 'https': 443}[m.group(1)]
    if port > 65535:
        return None
    return (m.group(1), m.group(2), port)


def _loose_origin(o):
    """Aggressive normalisation: only when two of these differ is the mismatch definite."""
    s = ''.join(ch for ch in o if ord(ch) > 0x20 and ord(ch) < 0x7f).lower().replace('\\', '/')
    m = re.match(r'([a-z][a-z0-9+.-]*):/*([^/?#]*)', s)
    if not m:
        return ('?', s, None)
    scheme, net = m.group(1), m.group(2)
    net = net.rsplit('@', 1)[-1]
    pm = re.match(r'(.*?)(?::([0-9]*))?\Z', net)
    host, port = pm.group(1).rstrip('.'), pm.group(2)
    try:
        port = int(port) if port else {'http': 80, 'https': 443}.get(scheme, 0)
    except ValueError:
        port = None
    return (scheme, host, port)


def origin_rel(a, b):
    """'eq', 'ne' or 'maybe'"""
    na, nb = _norm_origin(a), _norm_origin(b)
    if na and nb:
        return 'eq' if na == nb else 'ne'
    if b.isascii() != a.lower().strip().isascii() and '/' not in a.partition('://')[2]:
        return 'ne'             # no ASCII host equals one with other characters in it
    return 'maybe' if _loose_origin(a) == _loose_origin(b) else 'ne'


_B64U = re.compile(r'\A[A-Za-z0-9_-]*\Z')


def judge_client_data(t, cdj, kind, pol):
    try:
        text = cdj.decode('utf-8')
    except UnicodeDecodeError:
        t.bad('malformed')
        return
    try:
        d = json.loads(text, object_pairs_hook=_pairs, parse_constant=_const)
    except _Dup:
        t.blind('client data duplicates/constants')
        return
    except RecursionError:
        t.blind('client data depth')
        return
    except ValueError as e:
        if 'digits' in str(e):
            t.blind('client data huge int')
        elif text[:1] == '\ufeff':
            t.blind('BOM')
        else:
            t.bad('malformed')
        return
    if type(d) is not dict:
        t.bad('malformed')
        return
    ty, ch, og = d.get('type'), d.get('challenge'), d.get('origin')
    if not (type(ty) is str and type(ch) is str and type(og) is str):
        t.bad('malformed')
    if type(ty) is str and ty != ('webauthn.create' if kind == 'reg' else 'webauthn.get'):
        t.bad('type')
    if type(ch) is str:
        exp = pol['challenge']
        if _B64U.match(ch):
            core = ch
        else:
            core = None
        got = None
        if core is not None and len(core) % 4 != 1:
            got = base64.urlsafe_b64decode(core + '=' * (-len(core) % 4))
            if base64.urlsafe_b64encode(got).rstrip(b'=').decode() != core:
                t.unsure('challenge trailing bits')
        if got is None:
            # lenient reading: characters outside the alphabet dropped
            lossy = re.sub(r'[^A-Za-z0-9_+/-]', '', ch).replace('+', '-').replace('/', '_')
            head = re.sub(r'[^A-Za-z0-9_+/=-]', '', ch).replace('+', '-').replace('/', '_')
            cands = set()
            for v in (lossy, head.split('=')[0]):
                v = v[:len(v) - 1] if len(v) % 4 == 1 else v
                cands.add(base64.urlsafe_b64decode(v + '=' * (-len(v) % 4)))
            if exp in cands:
                t.unsure('challenge lenient')
            else:
                t.bad('challenge')
        elif got != exp:
            t.bad('challenge')
    if type(og) is str:
        exps = [pol['origins']] if isinstance(pol['origins'], str) else list(pol['origins'])
        rels = [origin_rel(og, e) for e in exps]
        if not any(r == 'eq' for r in rels):
            if any(r == 'maybe' for r in rels):
                t.unsure('origin form')
            else:
                t.bad('origin')
        if any(_norm_origin(e) is None for e in exps):
            t.unsure('configured origin form')
    tb = d.get('tokenBinding')
    exp_tb = pol.get('tb')
    if tb is not None:
        if type(tb) is not dict:
            t.bad('malformed')
            if exp_tb is None:
                t.bad('tb')
        else:
            st, tid = tb.get('status'), tb.get('id')
            if not (type(st) is str and st in ('present', 'supported')):
                t.bad('malformed')
                t.bad('tb')
            elif st == 'present' and tid is None:
                t.bad('malformed')
                t.bad('tb')
            else:
                if tid is not None and type(tid) is not str:
                    t.unsure('tb id type')
                if exp_tb is None or exp_tb['status'] != st or exp_tb.get('id') != tid:
                    t.bad('tb')
    elif exp_tb is not None:
        t.bad('tb')
    t.dec['cd'] = d


def read_cose(t, d):
    """COSE map -> semantic key dict or None; adds 'malformed' reasons."""
    def intstr(v):
        return type(v) in (int, str)
    if 1 not in d or d[1] is None:
        t.bad('malformed')
        return None
    kty = d[1]
    if not intstr(kty):
        if type(kty) is bool:
            t.unsure('bool kty')
            return None
        t.bad('malformed')
        return None
    kt = {1: 'OKP', 2: 'EC2', 'OKP': 'OKP', 'EC2': 'EC2'}.get(kty)
    if kt is None:
        t.bad('malformed')
        return None
    ok = True
    alg = d.get(3)
    an = None
    if not intstr(alg):
        t.bad('malformed')
        ok = False
    else:
        an = VALUE_ALG.get(alg) if type(alg) is int else (alg if alg in ALG_VALUE else None)
        if an is None or (an == 'EdDSA') != (kt == 'OKP'):
            t.bad('malformed')
            ok = False
    crv = d.get(-1)
    cn = None
    if not intstr(crv):
        t.bad('malformed')
        ok = False
    else:
        cn = VALUE_CRV.get(crv) if type(crv) is int else (crv if crv in CRV_VALUE else None)
        if cn is None or (cn in CURVES) != (kt == 'EC2'):
            t.bad('malformed')
            ok = False
    x, y = d.get(-2), d.get(-3)
    need = COORD.get(cn)
    if type(x) is not bytes or (ok and len(x) != need):
        t.bad('malformed')
        ok = False
    if kt == 'EC2' and (type(y) is not bytes or (ok and len(y) != need)):
        t.bad('malformed')
        ok = False
    kid, ops, iv = d.get(2), d.get(4), d.get(5)
    for v in (kid, iv):
        if v is not None and type(v) is not bytes:
            t.bad('malformed')
            ok = False
    opsn = None
    if ops is not None:
        if type(ops) is not list or not ops:
            t.bad('malformed')
            ok = False
        else:
            opsn = []
            for o in ops:
                n = KEY_OPS.get(o) if type(o) is int else (o if type(o) is str and o in KEY_OPS.values() else None)
                if n is None:
                    t.bad('malformed')
                    ok = False
                    break
                opsn.append(n)
    known = {1, 2, 3, 4, 5, -1, -2, -3} if kt == 'EC2' else {1, 2, 3, 4, 5, -1, -2}
    if set(d) - known:
        t.unsure('extra COSE labels')
    if any(k in d and d[k] is None for k in (2, 4, 5)):
        t.unsure('null COSE label')
    if not ok:
        return None
    if kt == 'EC2' and (an, cn) not in EC_PAIRS:
        t.unsure('unusual alg/curve pair')
    forms = tuple(type(v) is str for v in (kty, alg, crv)) + (
        tuple(type(o) is str for o in ops) if ops else ())
    kd = {'kty': kt, 'alg': an, 'crv': cn, 'x': x, 'y': y if kt == 'EC2' else None, 'kid': kid,
          'ops': opsn, 'iv': iv, 'forms': forms}
    if ref_public(kd) is None:
        t.unsure('key not a valid point')
    return kd


def judge_exts(t, e):
    """Extension outputs map -> dict name->value present; adds 'malformed'."""
    out = {}
    for k, v in e.items():
        if k not in EXT_NAMES:
            t.unsure('unknown extension')
            t.whole = False
            continue
        if v is None:
            t.unsure('null extension')
            t.whole = False
            continue
        good = True
        if k in ('appid', 'authnSel', 'biometricPerfBounds'):
            good = type(v) is bool
        elif k == 'txAuthSimple':
            good = type(v) is str
        elif k in ('txAuthGeneric', 'uvi'):
            good = type(v) is bytes
        elif k == 'exts':
            good = type(v) is list and all(type(x) is str for x in v)
        elif k == 'uvm':
            good = type(v) is list and all(type(x) is list and all(type(y) is int for y in x) for x in v)
        elif k == 'loc':
            good = type(v) is dict and all(type(x) in (int, float) for x in v.values())
            if good:
                if set(v) - set(COORD_NAMES):
                    good = False
                elif not {'latitude', 'longitude', 'accuracy'} <= set(v):
                    t.unsure('loc incomplete')
                if any(type(x) is float and x != x for x in v.values()):
                    t.unsure('nan')
        if not good:
            t.bad('malformed')
        out[k] = v
    return out


def judge_auth_data(t, ad, reg):
    """Parse raw authenticator data. Returns dict or None."""
    if len(ad) < 37:
        t.bad('malformed')
        return None
    flags = ad[32]
    r = {'hash': ad[:32], 'flags': flags, 'count': struct.unpack('>I', ad[33:37])[0], 'att': None,
         'exts': None}
    pos = 37
    try:
        if flags & 64:
            if len(ad) < pos + 18:
                raise cbor.Malformed()
            aaguid = ad[pos:pos + 16]
            n = struct.unpack('>H', ad[pos + 16:pos + 18])[0]
            pos += 18
            if len(ad) < pos + n:
                raise cbor.Malformed()
            cid = ad[pos:pos + n]
            pos += n
            d, pos = cbor.dec(ad, pos)
            if type(d) is not dict:
                t.bad('malformed')
                kd = None
            else:
                kd = read_cose(t, d)
            r['att'] = {'aaguid': aaguid, 'cid': cid, 'key': kd}
            if not reg:
                t.unsure('attested data in assertion')
        elif reg:
            t.bad('malformed')
        if flags & 128:
            e, pos = cbor.dec(ad, pos)
            if type(e) is not dict:
                t.bad('malformed')
                t.whole = False
            else:
                r['exts'] = judge_exts(t, e)
        if pos != len(ad):
            t.bad('malformed')
    except cbor.Malformed:
        t.bad('malformed')
        t.whole = False
    except cbor.Exotic as e:
        t.blind('authData CBOR ' + str(e))
    except RecursionError:
        t.blind('authData depth')
    # extension outputs that could not be read are not known to be absent
    r['extknown'] = r['exts'] is not None or not flags & 128
    return r


def judge_policy(t, r, pol, rpid):
    if rpid is not None and r['hash'] != sha256(rpid.encode('utf-8')):
        t.bad('rpidhash')
    if not r['flags'] & 1:
        t.bad('up')
    if pol.get('uv') and not r['flags'] & 4:
        t.bad('uv')
    want = pol.get('exts')
    if want:
        have = r['exts'] if r['exts'] is not None else {}
        for e in want:
            if e not in have and r['extknown']:
                t.bad('ext')


# ---------------------------------------------------------------- attestation

def _load_cert(c):
    import cryptography.x509
    from sim.crypto import BE
    try:
        x = cryptography.x509.load_der_x509_certificate(c, BE)
        return x, x.public_key()
    except Exception:
        return None, None


def unimpl_shape(fmt, st):
    """Is a statement of a format without an attester well formed?"""
    if fmt == 'android-safetynet':
        return {k: type(v) for k, v in st.items()} == {'ver': str, 'response': bytes}
    need = {'sig': bytes}
    if fmt == 'tpm':
        need.update(ver=str, certInfo=bytes, pubArea=bytes)
    alg = st.get('alg')
    if not (type(alg) is int and alg in VALUE_ALG or type(alg) is str and alg in ALG_VALUE):
        return False
    rest = {k: v for k, v in st.items() if k != 'alg'}
    for k, ty in need.items():
        if type(rest.pop(k, None)) is not ty:
            return False
    if set(rest) == {'x5c'}:
        return type(rest['x5c']) is list and all(type(c) is bytes for c in rest['x5c'])
    if set(rest) == {'ecdaaKeyId'}:
        return type(rest['ecdaaKeyId']) is bytes
    return not rest


def judge_attestation(t, ao, r, cdh, ctx):
    from cryptography.hazmat.primitives.asymmetric.ec import (
        SECP256R1, EllipticCurvePublicKey)
    from cryptography.hazmat.primitives.asymmetric.ed448 import Ed448PublicKey
    from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PublicKey
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    fmt, st = ao.get('fmt'), ao.get('attStmt')
    if type(fmt) is not str:
        t.bad('malformed')
        return
    if type(st) is not dict:
        t.bad('malformed')
        return
    if fmt == 'none':
        if st:
            t.bad('malformed')
        t.dec['att'] = ('NONE', None)
        return
    if fmt in ('packed', 'tpm', 'android-safetynet'):
        t.bad('unimpl')
        if not unimpl_shape(fmt, st):
            t.bad('malformed')
        return
    if fmt not in ('fido-u2f', 'android-key'):
        t.bad('malformed')
        return
    sig, x5c = st.get('sig'), st.get('x5c')
    alg = None
    if type(sig) is not bytes or type(x5c) is not list or any(type(c) is not bytes for c in x5c):
        t.bad('malformed')
        return
    if fmt == 'android-key':
        alg = st.get('alg')
        an = VALUE_ALG.get(alg) if type(alg) is int else (alg if type(alg) is str and alg in ALG_VALUE else None)
        if an is None:
            t.bad('malformed')
            return
    if set(st) - ({'sig', 'x5c'} | ({'alg'} if fmt == 'android-key' else set())):
        t.bad('malformed')
    kd = r['att']['key'] if r and r['att'] else None
    if kd is None:
        t.whole = False
        return
    if not x5c or (fmt == 'fido-u2f' and len(x5c) != 1):
        t.bad('att')
        return
    leaf = x5c[0]
    if leaf not in ctx.known_certs:
        t.unsure('certificate not issued by the simulation')
    x, pub = _load_cert(leaf)
    if pub is None:
        t.bad('attform')
        return
    t.dec['att'] = ('BASIC', leaf)
    if fmt == 'fido-u2f':
        if not (isinstance(pub, EllipticCurvePublicKey) and isinstance(pub.curve, SECP256R1)):
            t.bad('att')
            return
        if kd['crv'] != 'P-256':
            t.bad('att')
            return
        msg = b'\x00' + r['hash'] + cdh + r['att']['cid'] + b'\x04' + kd['x'] + kd['y']
        if not ref_verify(pub, 'ES256', sig, msg):
            t.bad('att')
        return
    # android-key
    isec = isinstance(pub, EllipticCurvePublicKey)
    if not (isec or isinstance(pub, (Ed25519PublicKey, Ed448PublicKey))):
        t.bad('att')
        return
    if isec and an == 'EdDSA':
        t.bad('attform')
        return
    if an != kd['alg']:
        t.unsure('statement alg differs from key alg')
    if not ref_verify(pub, an, sig, ao['authData'] + cdh):
        t.bad('att')
    ck = ref_public(kd)
    if ck is None:
        t.bad('attform')
        return
    if ck.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo) != pub.public_bytes(
            Encoding.DER, PublicFormat.SubjectPublicKeyInfo):
        t.bad('att')
    try:
        exts = der.parse_cert(leaf)['exts']
    except (der.Bad, ValueError, IndexError):
        t.blind('leaf certificate structure')
        return
    kdb = exts.get(der.ANDROID_OID)
    if kdb is None:
        t.bad('att')
        return
    try:
        desc = der.parse_key_description(kdb)
    except (der.Bad, IndexError) as e:
        if str(e) in ('eof',):
            t.bad('att')
        else:
            t.blind('key description structure')
        return
    if desc['challenge'] != cdh:
        t.bad('att')
    if 600 in desc['sw'] or 600 in desc['tee']:
        t.bad('att')
    og = desc['tee'].get(702)
    if og is None or og[0] != b'\x02' or int.from_bytes(og[1], 'big', signed=True) != 0:
        t.bad('att')
    pp = desc['tee'].get(1)
    if pp is None or pp[0] != b'\x31':
        t.bad('att')
    else:
        try:
            vals = [int.from_bytes(pp[1][s:e], 'big', signed=True)
                    for _, s, e in der.children(pp[1], 0, len(pp[1]))]
        except (der.Bad, IndexError):
            t.blind('key description structure')
            return
        if 2 not in vals:
            t.bad('att')


# ---------------------------------------------------------------- whole responses

class Ctx:
    """What the oracle may assume about the world."""

    def __init__(self, known_certs):
        self.known_certs = known_certs


def judge_wire(t, cj, kind):
    """Credential JSON -> dict of decoded fields (or None)."""
    if type(cj) is not dict:
        t.bad('malformed')
        t.whole = False
        return None
    if set(cj) - {'id', 'rawId', 'response', 'type'}:
        t.unsure('extra credential members')
    if type(cj.get('id')) is not str or type(cj.get('type')) is not str:
        t.bad('malformed')
    if cj.get('type') != 'public-key':
        t.unsure('credential type')
    raw = b64(t, cj.get('rawId'), 'rawId')
    resp = cj.get('response')
    if type(resp) is not dict:
        t.bad('malformed')
        t.whole = False
        return None
    f = {'rawId': raw, 'id': cj.get('id'), 'type': cj.get('type')}
    if raw is not None and base64.urlsafe_b64encode(raw).rstrip(b'=').decode() != cj.get('id'):
        t.unsure('id differs from rawId')
    f['cdj'] = b64(t, resp.get('clientDataJSON'), 'clientDataJSON')
    isreg = 'attestationObject' in resp
    if isreg != (kind == 'reg'):
        t.bad('malformed')
        t.whole = False
        return f
    if isreg:
        if set(resp) - {'clientDataJSON', 'attestationObject'}:
            t.unsure('extra response members')
            t.whole = False
        f['ao'] = b64(t, resp.get('attestationObject'), 'attestationObject')
    else:
        if set(resp) - {'clientDataJSON', 'authenticatorData', 'signature', 'userHandle'}:
            t.unsure('extra response members')
            t.whole = False
        f['ad'] = b64(t, resp.get('authenticatorData'), 'authenticatorData')
        f['sig'] = b64(t, resp.get('signature'), 'signature')
        uh = resp.get('userHandle')
        f['uh'] = None if uh is None else b64(t, uh, 'userHandle')
        if uh is None and 'userHandle' in resp:
            t.unsure('null userHandle')
    return f


def judge_reg(cj, pol, ctx):
    """pol: {challenge, origins, tb, uv, exts, rpid}"""
    t = Truth()
    if not isinstance(pol['origins'], str) and len(pol['origins']) == 0:
        t.bad('origin')
    f = judge_wire(t, cj, 'reg')
    if f is None:
        return t
    t.dec['f'] = f
    if f['cdj'] is not None:
        judge_client_data(t, f['cdj'], 'reg', pol)
    ao = f.get('ao')
    if ao is None:
        t.whole = False
        return t
    try:
        d, end = cbor.dec(ao, 0)
    except cbor.Malformed:
        t.bad('malformed')
        t.whole = False
        return t
    except (cbor.Exotic, RecursionError) as e:
        t.blind('attestation object ' + str(e))
        return t
    if end != len(ao):
        t.unsure('bytes after the attestation object')
    if type(d) is not dict:
        t.bad('malformed')
        t.whole = False
        return t
    if set(d) - {'fmt', 'attStmt', 'authData'}:
        t.unsure('extra attestation members')
    if not {'fmt', 'attStmt', 'authData'} <= set(d) or type(d['authData']) is not bytes:
        t.bad('malformed')
        t.whole = False
        return t
    r = judge_auth_data(t, d['authData'], True)
    t.dec['r'] = r
    t.dec['fmt'] = d['fmt']
    if r is None:
        t.whole = False
        return t
    judge_policy(t, r, pol, pol['rpid'])
    if f['cdj'] is not None:
        judge_attestation(t, d, r, sha256(f['cdj']), ctx)
    if r['att'] is not None and f['rawId'] is not None and r['att']['cid'] != f['rawId']:
        t.unsure('rawId differs from attested credential id')
    return t


def judge_auth(cj, pol, rec, ctx):
    """pol: {challenge, origins, tb, uv, exts, rp (id or None), user (id or None), allow
    (list of ids or None), ignore}; rec: None (no such credential), or {key, count, user, rp}
    or 'unknown' (storage was not consulted / failed)."""
    t = Truth()
    if not isinstance(pol['origins'], str) and len(pol['origins']) == 0:
        t.bad('origin')
    f = judge_wire(t, cj, 'auth')
    if f is None:
        return t
    t.dec['f'] = f
    if pol.get('allow') is not None and f['rawId'] is not None:
        if f['rawId'] not in pol['allow']:
            t.bad('allow')
    rpid = pol.get('rp')
    if rec is None:
        t.bad('nocred')
        rpid = None if rpid is None else rpid
    elif rec == 'unknown':
        t.whole = False
        t.clean = False
    else:
        if pol.get('user') is not None:
            if pol['user'] != rec['user']:
                t.bad('user')
            who = pol['user']
        else:
            who = rec['user']
            if f.get('uh', None) is None and 'uh' in f:
                t.bad('handle')
        if f.get('uh') is not None and f['uh'] != who:
            t.bad('handle')
        if rec['rp'] is None:
            if rpid is None:
                t.bad('norp')
        elif rpid is not None:
            if rec['rp'] != rpid:
                t.bad('rp')
        else:
            rpid = rec['rp']
    if f['cdj'] is not None:
        judge_client_data(t, f['cdj'], 'auth', pol)
    if f.get('ad') is None:
        t.whole = False
        return t
    r = judge_auth_data(t, f['ad'], False)
    t.dec['r'] = r
    if r is None:
        t.whole = False
        return t
    judge_policy(t, r, pol, rpid)
    if isinstance(rec, dict):
        if f.get('sig') is not None and f['cdj'] is not None:
            pk = ref_public(rec['key'])
            if pk is None:
                t.bad('sig')
            elif not ref_verify(pk, rec['key']['alg'], f['sig'], f['ad'] + sha256(f['cdj'])):
                t.bad('sig')
        c = rec['count']
        if c is not None and not (c == 0 and r['count'] == 0):
            if r['count'] <= c and not pol.get('ignore'):
                t.bad('count')
    return t


# reason -> property that owns it
OWNER = {'sig': 'C01', 'nocred': 'C03', 'type': 'C02', 'challenge': 'C02', 'origin': 'C02',
         'tb': 'C02', 'rpidhash': 'C02', 'allow': 'C03', 'user': 'C03', 'handle': 'C03', 'rp': 'C03',
         'norp': 'C03', 'up': 'C04', 'uv': 'C04', 'ext': 'C04', 'att': 'C05', 'unimpl': 'C05',
         'count': 'C06', 'malformed': 'C10', 'attform': 'C05'}
PARSE = {'ParserError', 'DecodingError', 'ValidationError', 'UnimplementedError', 'InternalError'}
# reason -> acceptable error classes (names; subclasses accepted)
CLASSES = {'sig': {'VerificationError', 'PublicKeyConversionError'}, 'nocred': {'CredentialDataError'},
           'type': {'ClientDataTypeError'}, 'challenge': {'ChallengeError', 'DecodingError'},
           'origin': {'OriginError'}, 'tb': {'TokenBindingError'}, 'rpidhash': {'RPIDHashError'},
           'allow': {'CredentialNotAllowedError'}, 'user': {'UserIDError'},
           'handle': {'UserHandleError'}, 'rp': {'RPIDError'}, 'norp': {'RPNotFoundError'},
           'up': {'UserPresenceError'}, 'uv': {'UserVerificationError'}, 'ext': {'ExtensionError'},
           'att': {'AttestationError'},
           'attform': {'AttestationError', 'InternalError', 'PublicKeyConversionError'}, 'unimpl': {'UnimplementedError'},
           'count': {'SignatureCountError'}, 'malformed': PARSE}
