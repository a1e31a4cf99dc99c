"""Own CBOR encoder and decoder (independent of cbor2)."""
import math
import struct


class Raw(bytes):
    """Pre-encoded CBOR."""


def head(major, n):
    m = major << 5
    if n < 24:
        return bytes([m | n])
    if n < 1 << 8:
        return bytes([m | 24, n])
    if n < 1 << 16:
        return bytes([m | 25]) + struct.pack('>H', n)
    if n < 1 << 32:
        return bytes([m | 26]) + struct.pack('>I', n)
    return bytes([m | 27]) + struct.pack('>Q', n)


def enc(o):
    if isinstance(o, Raw):
        return bytes(o)
    if o is None:
        return b'\xf6'
    if o is True:
        return b'\xf5'
    if o is False:
        return b'\xf4'
    if isinstance(o, int):
        return head(0, o) if o >= 0 else head(1, -1 - o)
    if isinstance(o, float):
        return b'\xfb' + struct.pack('>d', o)
    if isinstance(o, (bytes, bytearray)):
        return head(2, len(o)) + bytes(o)
    if isinstance(o, str):
        b = o.encode('utf-8')
        return head(3, len(b)) + b
    if isinstance(o, (list, tuple)):
        return head(4, len(o)) + b''.join(enc(x) for x in o)
    if isinstance(o, dict):
        return head(5, len(o)) + b''.join(enc(k) + enc(v) for k, v in o.items())
    raise TypeError(type(o))


class Malformed(Exception):
    """Definitely not decodable CBOR (truncated or ill-formed)."""


class Exotic(Exception):
    """Well-formed perhaps, but outside what the oracle wants to judge."""


def dec(b, pos=0, depth=0):
    """Decode one item. Returns (value, end). Raises Malformed or Exotic."""
    if depth > 40:
        raise Exotic('deep')
    if pos >= len(b):
        raise Malformed('eof')
    ib = b[pos]
    pos += 1
    major, info = ib >> 5, ib & 31
    if major == 7:
        if info in (20, 21):
            return info == 21, pos
        if info == 22:
            return None, pos
        if info in (25, 26, 27):
            w = {25: 2, 26: 4, 27: 8}[info]
            if pos + w > len(b):
                raise Malformed('eof in float')
            v = struct.unpack('>' + {25: 'e', 26: 'f', 27: 'd'}[info], b[pos:pos + w])[0]
            return v, pos + w
        raise Exotic('simple')
    if info < 24:
        n = info
    elif info in (24, 25, 26, 27):
        w = {24: 1, 25: 2, 26: 4, 27: 8}[info]
        if pos + w > len(b):
            raise Malformed('eof in head')
        n = int.from_bytes(b[pos:pos + w], 'big')
        pos += w
        # Longer-than-needed heads are legal for a lenient decoder; we accept them too.
    elif info == 31:
        raise Exotic('indefinite')
    else:
        raise Exotic('reserved info')
    if major == 0:
        return n, pos
    if major == 1:
        return -1 - n, pos
    if major in (2, 3):
        if pos + n > len(b):
            raise Malformed('eof in string')
        s = bytes(b[pos:pos + n])
        pos += n
        if major == 2:
            return s, pos
        try:
            return s.decode('utf-8'), pos
        except UnicodeDecodeError:
            raise Malformed('utf-8')
    if major == 4:
        if n > len(b) - pos:
            raise Malformed('eof in array')
        out = []
        for _ in range(n):
            v, pos = dec(b, pos, depth + 1)
            out.append(v)
        return out, pos
    if major == 5:
        if n > len(b) - pos:
            raise Malformed('eof in map')
        d = {}
        for _ in range(n):
            k, pos = dec(b, pos, depth + 1)
            v, pos = dec(b, pos, depth + 1)
            if isinstance(k, (list, dict)) or isinstance(k, float):
                raise Exotic('map key')
            if isinstance(k, bool) or k is None:
                raise Exotic('map key')
            if k in d:
                raise Exotic('duplicate key')
            d[k] = v
        return d, pos
    raise Exotic('tag')
