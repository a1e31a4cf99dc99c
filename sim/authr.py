"""Simulated client and authenticator: builds responses (honest or rogue) from small JSON specs."""
import base64
import json
import struct

from sim import cbor, der
from sim.core import H, stream
from sim.crypto import ALG_VALUE, CRV_VALUE, CURVES, key

UP, UV, AT, ED = 1, 4, 64, 128
import hashlib


def sha256(b):
    return hashlib.sha256(b).digest()


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def unjson(v):
    """JSON plan value -> value with bytes ({"$h": hex}), int-keyed dicts ({"$m": [[k, v]]})."""
    if isinstance(v, dict):
        if '$h' in v:
            return bytes.fromhex(v['$h'])
        if '$raw' in v:
            return cbor.Raw(bytes.fromhex(v['$raw']))
        if '$m' in v:
            return {unjson(k): unjson(x) for k, x in v['$m']}
        return {k: unjson(x) for k, x in v.items()}
    if isinstance(v, list):
        return [unjson(x) for x in v]
    return v


def client_data(kind, challenge, origin, tb, cd):
    """cd: edits {type, challenge, origin, tb, extra, layout, raw, drop}"""
    if 'raw' in cd:
        return bytes.fromhex(cd['raw'])
    d = {'type': cd.get('type', 'webauthn.create' if kind == 'reg' else 'webauthn.get'),
         'challenge': cd.get('challenge', b64u(challenge)),
         'origin': cd.get('origin', origin)}
    t = cd.get('tb', tb)
    if t is not None or 'tb' in cd:
        d['tokenBinding'] = t
    items = list(d.items())
    for k, v in (cd.get('extra') or {}).items():
        items.append((k, v))
    for k in cd.get('drop') or []:
        items = [(a, b) for a, b in items if a != k]
    layout = cd.get('layout', 0)
    if layout & 2:
        items = items[::-1]
    d = dict(items)
    if layout & 1:
        s = json.dumps(d, indent=2)
    else:
        s = json.dumps(d, separators=(',', ':'), ensure_ascii=not layout & 8)
    if layout & 4:  # escape every 'e' as \u0065 inside strings
        s = s.replace('e', '\\u0065') if 'true' not in s and 'false' not in s else s
    if cd.get('enc'):
        return s.encode(cd['enc'], 'replace')
    b = s.encode('utf-8', 'surrogatepass')
    if cd.get('glue') is not None:      # raw bytes in place of a member
        b = b[:-1].rstrip() + b',' + bytes.fromhex(cd['glue']) + b[-1:]
    if layout & 16:
        b = b' \r\n\t' + b + b'\n'
    return b


def cose_dict(k, spec):
    """COSE map of a public key; spec may alter the encoding."""
    alg = spec.get('alg', 'ES256')
    names = spec.get('names', '')   # letters: t=kty a=alg c=crv encoded as text
    ec = k.crv in CURVES
    d = {}
    d[1] = ('EC2' if ec else 'OKP') if 't' in names else (2 if ec else 1)
    d[3] = alg if 'a' in names else ALG_VALUE[alg]
    extra = unjson(spec.get('extra') or {'$m': []})
    for kk in (2, 4, 5):
        if kk in extra:
            d[kk] = extra[kk]
    d[-1] = k.crv if 'c' in names else CRV_VALUE[k.crv]
    d[-2] = k.x
    if k.y is not None:
        d[-3] = k.y
    edits = unjson(spec.get('keyedit') or {'$m': []})
    for kk, v in edits.items():
        if v == 'DROP':
            d.pop(kk, None)
        else:
            d[kk] = v
    if spec.get('keyorder'):
        d = dict(sorted(d.items(), key=lambda kv: H('order', spec['keyorder'], str(kv[0]))))
    return d


def auth_data(rpid, flags, count, att=None, exts=None, hx=None):
    b = bytearray(sha256(rpid.encode('utf-8')))
    if hx:
        b[hx[0]] ^= hx[1]
    b = bytes(b) + bytes([flags]) + struct.pack('>I', count)
    if att is not None:
        aaguid, cid, coseb = att
        b += aaguid + struct.pack('>H', len(cid)) + cid + coseb
    if exts is not None:
        b += cbor.enc(exts)
    return b


def flags_for(spec, reg, exts):
    if 'flags' in spec:
        f = spec['flags'] & 0x3f
    else:
        f = UP | UV
    if reg:
        f |= AT
    if exts is not None:
        f |= ED
    f ^= spec.get('flagxor', 0)
    return f


def attestation(spec, k, rpid, ad, cdh, cid, seedname):
    """-> (fmt, attStmt dict, [cert ders])"""
    fmt = spec.get('fmt', 'none')
    a = spec.get('att') or {}
    if fmt == 'none':
        st = {}
        certs = []
    elif fmt == 'fido-u2f':
        ckind = a.get('cert', 'ec256')
        crv = {'ec384': 'P-384', 'ec521': 'P-521', 'ed25519': 'Ed25519', 'eck1': 'secp256k1', 'ecbp': 'bp256'}.get(ckind, 'P-256')
        sk = key(crv, 'att|' + a.get('model', 'm0'))
        spki = der.rsa_spki() if ckind == 'rsa' else sk.spki
        c = der.cert(spki, 'U2F ' + a.get('model', 'm0'), extra_len=a.get('certpad', 0))
        if ckind == 'garbage':
            c = stream(80, 'garbage', seedname)
        if ckind == 'torn':
            c = c[:-9]
        certs = [c] * a.get('ncerts', 1)
        if a.get('chain'):
            certs = certs + [der.cert(key('P-256', 'sim-ca').spki, 'sim CA')]
        signer = key('P-256' if crv not in CURVES else crv, 'att|' + a['signer']) if a.get('signer') else sk
        over = a.get('over') or {}
        pk = b'\x04' + k.x + (k.y or b'')
        parts = {'prefix': b'\x00', 'rp': (ad + sha256(rpid.encode()))[:32], 'cdh': cdh, 'cid': cid, 'pk': pk}
        for kk, v in over.items():
            if v == 'other':
                parts[kk] = stream(len(parts[kk]), 'other', kk, seedname)
            elif v == 'empty':
                parts[kk] = b''
            elif v == 'noprefix':
                parts[kk] = parts[kk][1:]
            elif v == 'otherkey':
                o = key('P-256', 'victim|' + seedname)
                parts[kk] = b'\x04' + o.x + o.y
            elif v == 'compressed':
                parts[kk] = bytes([2 + (k.y[-1] & 1)]) + k.x
            elif v == 'swapxy':
                parts[kk] = b'\x04' + (k.y or b'') + k.x
            elif v == 'other_y':
                parts[kk] = b'\x04' + k.x + stream(len(k.y or b''), 'y', seedname)
        msg = parts['prefix'] + parts['rp'] + parts['cdh'] + parts['cid'] + parts['pk']
        if signer.crv in CURVES:
            sig = signer.sign(msg, a.get('hash', 'ES256'))
        else:
            sig = signer.sign(msg)
        st = {'sig': sig, 'x5c': certs}
    elif fmt == 'android-key':
        leafkey = k if not a.get('leaf') else key(
            k.crv if a['leaf'] == 'same' else a['leaf'], 'leaf|' + seedname)
        sw = {int(t): tuple(unjson(v)) for t, v in (a.get('sw') or {}).items()}
        tee = {int(t): tuple(unjson(v)) for t, v in
               (a.get('tee') if a.get('tee') is not None else
                {'1': ['set', [2]], '702': ['int', 0]}).items()}
        ch = cdh
        if a.get('kdch') == 'other':
            ch = stream(32, 'kdch', seedname)
        elif a.get('kdch') == 'empty':
            ch = b''
        elif a.get('kdch') == 'prefix':
            ch = cdh[:16]
        elif a.get('kdch') == 'suffix':
            ch = cdh + b'\0'
        elif a.get('kdch') == 'double':
            ch = cdh + cdh
        elif a.get('kdch') == 'lead':
            ch = b'\0' + cdh
        elif a.get('kdch') == 'hex':
            ch = cdh.hex().encode()
        elif a.get('kdch') == 'raw':
            ch = b'raw-challenge'
        elif a.get('kdch') == 'flip':
            ch = cdh[:-1] + bytes([cdh[-1] ^ 1])
        hd = a.get('kdhead') or [3, 1, 4, 1, '']
        kd = der.key_description(ch, sw, tee, hd[:4] + [bytes.fromhex(hd[4])], trail=bytes.fromhex(a.get('kdtrail', '')))
        if a.get('kdtorn'):
            kd = kd[:-a['kdtorn']]
        exts = [] if a.get('noext') else [(der.ANDROID_OID, kd)]
        if a.get('otherext'):
            exts.insert(0, (bytes.fromhex('060a2b06010401829a7b0103'), kd))
        spki = der.rsa_spki() if a.get('leafrsa') else leafkey.spki
        leaf = der.cert(spki, 'Android Keystore Key', exts, extra_len=a.get('certpad', 0))
        certs = [leaf]
        for i in range(a.get('chain', 0)):
            certs.append(der.cert(key('P-256', 'chain%d' % i).spki, 'CA%d' % i))
        if a.get('rev'):
            certs = certs[::-1]
        if a.get('ncerts') == 0:
            certs = []
        signer = leafkey
        if a.get('signer') == 'cred':
            signer = k
        elif a.get('signer'):
            signer = key(leafkey.crv, 'x|' + seedname)
        msg = ad + cdh
        ov = a.get('overm')
        if ov == 'ad':
            msg = ad
        elif ov == 'cdh':
            msg = cdh
        elif ov == 'swap':
            msg = cdh + ad
        elif ov == 'adflip':
            msg = ad[:32] + bytes([(ad + b"\0" * 33)[32] ^ 1]) + ad[33:] + cdh
        elif ov == 'noad':
            msg = ad[:37] + cdh
        alg = a.get('hash') or (spec.get('alg') if spec.get('alg') != 'EdDSA' else 'ES256')
        sig = signer.sign(msg, alg) if signer.crv in CURVES else signer.sign(msg)
        stalg = a.get('alg', spec.get('alg', 'ES256'))
        st = {'alg': stalg if a.get('algname') else ALG_VALUE.get(stalg, stalg), 'sig': sig, 'x5c': certs}
    elif fmt == 'packed':
        alg = spec.get('alg', 'ES256')
        sig = k.sign(ad + cdh, alg) if k.crv in CURVES else k.sign(ad + cdh)
        st = {'alg': ALG_VALUE[alg], 'sig': sig}
        certs = []
        if a.get('variant') == 'x5c':
            sk = key('P-256', 'att|packed')
            certs = [der.cert(sk.spki, 'Packed')]
            st = {'alg': -7, 'sig': sk.sign(ad + cdh, 'ES256'), 'x5c': certs}
        elif a.get('variant') == 'ecdaa':
            st['ecdaaKeyId'] = b'k' * 8
    elif fmt == 'tpm':
        alg = spec.get('alg', 'ES256')
        sig = k.sign(ad + cdh, alg) if k.crv in CURVES else k.sign(ad + cdh)
        st = {'alg': ALG_VALUE[alg], 'sig': sig, 'ver': '2.0', 'certInfo': b'ci', 'pubArea': b'pa'}
        certs = []
        if a.get('variant') == 'x5c':
            certs = [der.cert(key('P-256', 'att|tpm').spki, 'TPM')]
            st['x5c'] = certs
        elif a.get('variant') == 'ecdaa':
            st['ecdaaKeyId'] = b'k' * 8
    elif fmt == 'android-safetynet':
        st = {'ver': '1', 'response': b'jws.' + stream(40, 'sn', seedname)}
        certs = []
    else:
        st = {}
        certs = []
    for kk, v in unjson(a.get('edit') or {}).items():
        if v == 'DROP':
            st.pop(kk, None)
        else:
            st[kk] = v
    return fmt, st, certs


def build_reg(seed, m, spec, challenge, rpid, origin, tb):
    """Registration response. Returns (message, credential material)."""
    crv = spec.get('crv', 'P-256')
    k = key(crv, spec.get('keyseed') or '%s|cred|%s' % (seed, m))
    cid = cred_id(seed, m, spec)
    rpid = spec.get('rpid', rpid)
    exts = unjson(spec['exts']) if spec.get('exts') is not None else None
    cd = client_data('reg', challenge, spec.get('origin', origin), tb, spec.get('cd') or {})
    cose = cbor.enc(cose_dict(k, spec))
    if spec.get('cosetrunc'):
        cose = cose[:-spec['cosetrunc']]
    aaguid = bytes.fromhex(spec['aaguid']) if 'aaguid' in spec else H(seed, 'aaguid', m)[:16]
    flags = flags_for(spec, True, exts)
    att = (aaguid, cid, cose) if (flags & AT or spec.get('keepatt')) else None
    ad = auth_data(rpid, flags, spec.get('count', 0), att,
                   exts if (flags & ED or spec.get('keepext')) else None, spec.get('hashxor'))
    if 'adtail' in spec:
        ad += bytes.fromhex(spec['adtail'])
    if 'adtrunc' in spec:
        ad = ad[:max(0, len(ad) - spec['adtrunc'])]
    cdh = sha256(cd)
    fmt, st, certs = attestation(spec, k, rpid, ad, cdh, cid, '%s|%s' % (seed, m))
    msg = {'kind': 'reg', 'id': b64u(cid), 'rawId': cid, 'type': 'public-key', 'cdj': cd,
           'ao': {'fmt': fmt, 'attStmt': st, 'authData': ad}, 'aoorder': spec.get('aoorder', 0)}
    cred = {'name': m, 'key': k, 'alg': spec.get('alg', 'ES256'), 'cid': cid, 'rpid': rpid,
            'count': spec.get('count', 0), 'certs': certs}
    return msg, cred


def cred_id(seed, m, spec):
    if 'cid' in spec:
        return bytes.fromhex(spec['cid'])
    return stream(spec.get('cidlen', 16), seed, 'cid', m)


def build_auth(seed, m, spec, challenge, rpid, origin, tb, cred, count, handle):
    rpid = spec.get('rpid', rpid)
    exts = unjson(spec['exts']) if spec.get('exts') is not None else None
    cd = client_data('auth', challenge, spec.get('origin', origin), tb, spec.get('cd') or {})
    flags = flags_for(spec, False, exts)
    att = None
    if spec.get('attd'):        # attested credential data where none belongs
        a = spec['attd']
        ak = cred['key'] if a['key'] == 'own' else key(a.get('crv', 'P-256'), '%s|rogue|%s' % (seed, a['key']))
        alg = cred['alg'] if ak is cred['key'] else {'P-256': 'ES256', 'Ed25519': 'EdDSA'}[ak.crv]
        att = (b'\0' * 16, bytes.fromhex(a['cid']) if 'cid' in a else cred['cid'], cbor.enc(cose_dict(ak, {'alg': alg})))
        flags |= AT
    ad = auth_data(rpid, flags, count, att, exts if (flags & ED or spec.get('keepext')) else None, spec.get('hashxor'))
    if 'adtail' in spec:
        ad += bytes.fromhex(spec['adtail'])
    if 'adtrunc' in spec:
        ad = ad[:max(0, len(ad) - spec['adtrunc'])]
    k = cred['key']
    s = spec.get('sign') or {}
    if s.get('key'):
        k = key(s.get('crv') or (k.crv if s['key'] != 'crv' else 'P-256'), '%s|rogue|%s' % (seed, s['key']))
    cdh = sha256(cd)
    over = s.get('over')
    msg = ad + cdh
    if over == 'raw':
        msg = ad + cd
    elif over == 'cdh':
        msg = cdh
    elif over == 'ad':
        msg = ad
    elif over == 'swap':
        msg = cdh + ad
    elif over == 'ad37':
        msg = ad[:32] + cdh
    elif over == 'nocount':
        msg = ad[:33] + b'\0\0\0\0' + ad[37:] + cdh
    elif over == 'noflags':
        msg = ad[:32] + b'\x01' + ad[33:] + cdh
    elif over == 'double':
        msg = sha256(ad + cdh)
    elif over == 'head37':
        msg = ad[:37] + cdh
    alg = s.get('alg') or cred['alg']
    if k.crv in CURVES:
        sig = k.sign(msg, alg if alg != 'EdDSA' else 'ES256')
    else:
        sig = k.sign(msg)
    uh = spec.get('uh', 'owner')
    if uh == 'owner':
        uhb = handle
    elif uh == 'none':
        uhb = None
    else:
        uhb = bytes.fromhex(uh)
    cid = bytes.fromhex(spec['rawid']) if 'rawid' in spec else cred['cid']
    return {'kind': 'auth', 'id': b64u(cid), 'rawId': cid, 'type': 'public-key', 'cdj': cd,
            'ad': ad, 'sig': sig, 'uh': uhb}


def encode(msg):
    """message structure -> credential JSON dict as the page's script would post it."""
    def b(x):
        return base64.b64encode(x).decode()
    r = {'clientDataJSON': b(msg['cdj'])}
    if msg['kind'] == 'reg':
        if 'aoraw' in msg:
            r['attestationObject'] = b(msg['aoraw'])
        else:
            r['attestationObject'] = b(encode_ao(msg))
    else:
        r['authenticatorData'] = b(msg['ad'])
        r['signature'] = b(msg['sig'])
        if msg.get('uh') is not None:
            r['userHandle'] = b(msg['uh'])
    d = {'id': msg['id'], 'rawId': b(msg['rawId']), 'type': msg['type'], 'response': r}
    return d


def encode_ao(msg):
    order = [('fmt', 'attStmt', 'authData'), ('authData', 'fmt', 'attStmt'),
             ('attStmt', 'authData', 'fmt')][msg.get('aoorder', 0) % 3]
    ao = msg['ao']
    return cbor.enc({k: ao[k] for k in order if k in ao})


def apply_tamper(msg, tampers, lookup):
    """Network attacker/corruption: returns (message copy, JSON-level edits to apply after encode)."""
    msg = dict(msg)
    if 'ao' in msg:
        msg['ao'] = dict(msg['ao'])
    jedits = []
    for t in tampers:
        f = t['f']
        if f.startswith('j:'):
            jedits.append(t)
            continue
        if f == 'kind':
            continue
        if f.startswith('ao.'):
            k = f[3:]
            if 'ao' not in msg:
                continue
            how = t['how']
            if how == 'set':
                msg['ao'][k] = unjson(t['v'])
            elif how == 'drop':
                msg['ao'].pop(k, None)
            elif how == 'splice':
                o = lookup(t['m'])
                if o and 'ao' in o and k in o['ao']:
                    msg['ao'][k] = o['ao'][k]
            elif k in msg['ao'] and isinstance(msg['ao'][k], bytes):
                msg['ao'][k] = _bytes_tamper(msg['ao'][k], t)
            elif k == 'attStmt' and isinstance(msg['ao'].get(k), dict):
                st = dict(msg['ao'][k])
                sub = t.get('k', 'sig')
                if how == 'splicek':
                    o = lookup(t['m'])
                    if o and isinstance(o.get('ao', {}).get('attStmt'), dict) and sub in o['ao']['attStmt']:
                        st[sub] = o['ao']['attStmt'][sub]
                elif how == 'setk':
                    st[sub] = unjson(t['v'])
                elif how == 'dropk':
                    st.pop(sub, None)
                elif isinstance(st.get(sub), bytes):
                    st[sub] = _bytes_tamper(st[sub], t)
                elif sub == 'x5c' and st.get('x5c') and isinstance(st['x5c'], list) \
                        and isinstance(st['x5c'][0], bytes):
                    st['x5c'] = [_bytes_tamper(st['x5c'][0], t)] + st['x5c'][1:]
                msg['ao'][k] = st
            continue
        if f == 'attobj':
            if 'ao' in msg:
                raw = msg.get('aoraw') or encode_ao(msg)
                msg['aoraw'] = _bytes_tamper(raw, t)
            continue
        if f not in msg:
            continue
        how = t['how']
        if how == 'splice':
            o = lookup(t['m'])
            if o and f in o:
                msg[f] = o[f]
        elif how == 'set':
            msg[f] = unjson(t['v'])
        elif isinstance(msg[f], bytes):
            msg[f] = _bytes_tamper(msg[f], t)
        if f == 'rawId' and t.get('fixid') and isinstance(msg['rawId'], bytes):
            msg['id'] = b64u(msg['rawId'])
    return msg, jedits


def _bytes_tamper(b, t):
    how = t['how']
    if how == 'flip':
        if not b:
            return b
        i = t['at'] % len(b)
        return b[:i] + bytes([b[i] ^ (1 << (t.get('bit', 0) % 8))]) + b[i + 1:]
    if how == 'byte':
        if not b:
            return b
        i = t['at'] % len(b)
        return b[:i] + bytes([t['v'] & 255]) + b[i + 1:]
    if how == 'trunc':
        return b[:max(0, len(b) - 1 - t['n'] % max(1, len(b)))]
    if how == 'keep':
        return b[:t['n']]
    if how == 'append':
        return b + bytes.fromhex(t['v'])
    if how == 'prepend':
        return bytes.fromhex(t['v']) + b
    if how == 'sub':
        return b.replace(t['a'].encode(), t['b'].encode(), t.get('count', 1))
    if how == 'dupslice':
        if not b:
            return b
        i = t['at'] % len(b)
        n = t.get('n', 1)
        return b[:i + n] + b[i:i + n] + b[i + n:]
    if how == 'delslice':
        if not b:
            return b
        i = t['at'] % len(b)
        return b[:i] + b[i + t.get('n', 1):]
    if how == 'setb':
        return bytes.fromhex(t['v'])
    if how == 'zero':
        return b'\0' * len(b)
    if how == 'recode':
        return recode(b, t['v'])
    return b


def recode(b, v):
    """The same signature in another encoding."""
    if v == 'hex':
        return b.hex().encode()
    if v == 'b64':
        return base64.b64encode(b)
    if v == 'rev':
        return b[::-1]
    if v == 'bits':
        return b'\x03' + bytes([(len(b) + 1) & 127]) + b'\0' + b
    if v == 'octets':
        return b'\x04' + bytes([len(b) & 127]) + b
    try:
        from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
        r, s = decode_dss_signature(b)
    except ValueError:
        n = len(b) // 2     # EdDSA: S + L is the classical malleability
        if v == 'swap':
            return b[n:] + b[:n]
        L = 2**252 + 27742317777372353535851937790883648493
        if len(b) == 64:
            return b[:32] + ((int.from_bytes(b[32:], 'little') + L) % 2**256).to_bytes(32, 'little')
        return b + b'\0'
    n = 32 if len(b) < 80 else 48 if len(b) < 110 else 66
    rb, sb = r.to_bytes(n, 'big'), s.to_bytes(n, 'big')
    if v == 'p1363':
        return rb + sb

    def num(x):
        return b'\x02' + bytes([len(x)]) + x
    pr, ps = b'\0' + rb, b'\0' + sb
    if v == 'pad0':
        body = num(b'\0' + pr) + num(b'\0' + ps)
    elif v == 'swap':
        body = num(ps) + num(pr)
    elif v == 'order':      # negative looking numbers
        body = num(rb) + num(sb)
    else:
        body = num(pr) + num(ps)
    if v == 'ber':
        return b'\x30\x80' + body + b'\0\0'
    if v == 'long':
        return b'\x30\x82' + len(body).to_bytes(2, 'big') + body
    return b'\x30' + (bytes([len(body)]) if len(body) < 128 else b'\x81' + bytes([len(body)])) + body


RECODE = ('hex', 'b64', 'rev', 'bits', 'octets', 'p1363', 'pad0', 'swap', 'order', 'ber', 'long', 'same')


def apply_json(d, jedits):
    """JSON-level corruption of the posted credential."""
    if not jedits:
        return d
    d = json.loads(json.dumps(d))
    for t in jedits:
        path = t['f'][2:].split('.')
        o = d
        ok = True
        for p in path[:-1]:
            if isinstance(o, dict) and isinstance(o.get(p), dict):
                o = o[p]
            else:
                ok = False
                break
        if not ok or not isinstance(o, dict):
            continue
        p = path[-1]
        how = t['how']
        if how == 'drop':
            o.pop(p, None)
        elif how == 'set':
            o[p] = t['v']
        elif how == 'rename' and p in o:
            o[t['v']] = o.pop(p)
        elif how == 'urlsafe' and isinstance(o.get(p), str):
            o[p] = o[p].replace('+', '-').replace('/', '_')
        elif how == 'unpad' and isinstance(o.get(p), str):
            o[p] = o[p].rstrip('=')
        elif how == 'trunc' and isinstance(o.get(p), str):
            o[p] = o[p][:max(0, len(o[p]) - t['n'])]
        elif how == 'ins' and isinstance(o.get(p), str):
            i = t['at'] % (len(o[p]) + 1)
            o[p] = o[p][:i] + t['v'] + o[p][i:]
    return d
