"""Own DER writer/reader: X.509 certificates and Android key descriptions."""
from sim.core import stream
from sim.crypto import der_int, der_len, key

SHA256_ECDSA = bytes.fromhex('06082a8648ce3d040302')
ANDROID_OID = bytes.fromhex('060a2b06010401d679020111')


def tlv(tag, body):
    t = tag if isinstance(tag, bytes) else bytes([tag])
    return t + der_len(len(body)) + body


def seq(*parts):
    return tlv(0x30, b''.join(parts))


def set_(*parts):
    return tlv(0x31, b''.join(parts))


def octets(b):
    return tlv(0x04, b)


def ctx_tag(n):
    """Constructed context tag [n]."""
    if n < 31:
        return bytes([0xa0 | n])
    groups = [n & 0x7f]
    n >>= 7
    while n:
        groups.append(0x80 | (n & 0x7f))
        n >>= 7
    return bytes([0xbf] + groups[::-1])


def explicit(n, body):
    return tlv(ctx_tag(n), body)


def name(cn):
    return seq(set_(seq(bytes.fromhex('0603550403'), tlv(0x0c, cn.encode()))))


RSA_SPKI = None


def rsa_spki():
    """A fixed, syntactically valid 2048-bit RSA public key."""
    global RSA_SPKI
    if RSA_SPKI is None:
        n = int.from_bytes(stream(256, 'rsa-modulus'), 'big') | (1 << 2047) | 1
        pk = seq(der_int(n), der_int(65537))
        RSA_SPKI = seq(seq(bytes.fromhex('06092a864886f70d010101'), b'\x05\x00'),
                       tlv(0x03, b'\x00' + pk))
    return RSA_SPKI


def cert(spki, cn, extensions=(), serial=1, extra_len=0):
    """A v3 certificate over spki signed by a deterministic CA key."""
    ca = key('P-256', 'sim-ca')
    exts = list(extensions)
    if extra_len:
        exts.append((bytes.fromhex('060a2b06010401829a7b0102'), octets(stream(extra_len, 'pad', cn))))
    alg = seq(SHA256_ECDSA)
    parts = [explicit(0, der_int(2)), der_int(serial), alg, name('sim CA'),
             seq(tlv(0x17, b'200101000000Z'), tlv(0x17, b'490101000000Z')),
             name(cn), spki]
    if exts:
        parts.append(explicit(3, seq(*[seq(oid, octets(val)) for oid, val in exts])))
    tbs = seq(*parts)
    return seq(tbs, alg, tlv(0x03, b'\x00' + ca.sign(tbs, 'ES256')))


def auth_list(d):
    """d: {tag(int): ('int', n) | ('set', [ints]) | ('null',) | ('oct', bytes)} in any order."""
    out = []
    for tag in sorted(d):
        v = d[tag]
        if v[0] == 'int':
            body = der_int(v[1]) if v[1] >= 0 else tlv(2, v[1].to_bytes(4, 'big', signed=True))
        elif v[0] == 'set':
            body = set_(*[der_int(x) for x in v[1]])
        elif v[0] == 'null':
            body = b'\x05\x00'
        elif v[0] == 'oct':
            body = octets(v[1])
        elif v[0] == 'rot':
            body = seq(octets(v[1]), tlv(1, b'\xff'), tlv(0x0a, b'\x00'), octets(v[1]))
        out.append(explicit(tag, body))
    return seq(*out)


def key_description(challenge, sw, tee, head=(3, 1, 4, 1, b''), trail=b''):
    return seq(der_int(head[0]), tlv(0x0a, bytes([head[1]])), der_int(head[2]), tlv(0x0a, bytes([head[3]])),
               octets(challenge), octets(head[4]), auth_list(sw), auth_list(tee)) + trail


class Bad(Exception):
    pass


def read(b, pos, end):
    """Read one definite-length TLV -> (tag_bytes, body_start, body_end). Raises Bad."""
    if pos >= end:
        raise Bad('eof')
    start = pos
    t = b[pos]
    pos += 1
    if t & 31 == 31:
        while True:
            if pos >= end:
                raise Bad('eof')
            c = b[pos]
            pos += 1
            if not c & 0x80:
                break
    tag = bytes(b[start:pos])
    if pos >= end:
        raise Bad('eof')
    n = b[pos]
    pos += 1
    if n & 0x80:
        w = n & 0x7f
        if w == 0 or w > 4 or pos + w > end:
            raise Bad('len')
        n = int.from_bytes(b[pos:pos + w], 'big')
        pos += w
    if pos + n > end:
        raise Bad('eof')
    return tag, pos, pos + n


def children(b, start, end):
    out = []
    while start < end:
        tag, s, e = read(b, start, end)
        out.append((tag, s, e))
        start = e
    return out


def parse_key_description(b):
    """-> dict(challenge, sw:{tag:(inner_tag, body)}, tee:{...}). Raises Bad if not as built by us."""
    tag, s, e = read(b, 0, len(b))
    if tag != b'\x30' or e != len(b):
        raise Bad('outer')
    ch = children(b, s, e)
    if [c[0] for c in ch] != [b'\x02', b'\x0a', b'\x02', b'\x0a', b'\x04', b'\x04', b'\x30', b'\x30']:
        raise Bad('shape')
    lists = []
    for c in ch[6:]:
        d = {}
        last = -1
        for t, cs, ce in children(b, c[1], c[2]):
            n = None
            for k in KNOWN_TAGS:
                if ctx_tag(k) == t:
                    n = k
            if n is None or n <= last:
                raise Bad('tag')
            last = n
            it, is_, ie = read(b, cs, ce)
            if ie != ce:
                raise Bad('inner')
            d[n] = (it, bytes(b[is_:ie]))
        lists.append(d)
    return dict(challenge=bytes(b[ch[4][1]:ch[4][2]]), sw=lists[0], tee=lists[1])


KNOWN_TAGS = (1, 2, 3, 5, 6, 10, 200, 303, 400, 401, 402, 503, 504, 505, 506, 507, 508, 509, 600,
              601, 701, 702, 703, 704, 705, 706, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719)


def parse_cert(b):
    """Minimal strict reader of certificates. -> dict(spki, exts {oid: value}). Raises Bad."""
    tag, s, e = read(b, 0, len(b))
    if tag != b'\x30' or e != len(b):
        raise Bad('cert')
    ch = children(b, s, e)
    if len(ch) != 3:
        raise Bad('cert')
    tbs = children(b, ch[0][1], ch[0][2])
    if len(tbs) < 7 or tbs[0][0] != b'\xa0':
        raise Bad('tbs')
    sp = tbs[6]
    # recover full TLV of the SPKI
    spki = tlv(sp[0], bytes(b[sp[1]:sp[2]]))
    exts = {}
    for t in tbs[7:]:
        if t[0] == b'\xa3':
            (xt, xs, xe), = children(b, t[1], t[2])
            for et, es, ee in children(b, xs, xe):
                parts = children(b, es, ee)
                oid = tlv(6, bytes(b[parts[0][1]:parts[0][2]]))
                val = parts[-1]
                exts[oid] = bytes(b[val[1]:val[2]])
    return dict(spki=spki, exts=exts)
