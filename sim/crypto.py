"""Deterministic keys and signatures (test-side; independent of the code under test)."""
import hashlib

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.ed448 import (Ed448PrivateKey,
                                                             Ed448PublicKey)
from cryptography.hazmat.primitives.asymmetric.ed25519 import (
    Ed25519PrivateKey, Ed25519PublicKey)
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from sim.core import H, stream

BE = default_backend()
CURVES = {
    'P-256': (ec.SECP256R1, 32,
              0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551),
    'P-384': (ec.SECP384R1, 48,
              0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973),
    'P-521': (ec.SECP521R1, 66,
              6864797660130609714981900799081393217269435300143305409394463459185543183397655394245057746333217197532963996371363321113864768612440380340372808892707005449),
    'secp256k1': (ec.SECP256K1, 32, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141),
    'bp256': (ec.BrainpoolP256R1, 32, 0xA9FB57DBA1EEA9BC3E660A909D838D718C397AA3B561A6F7901E0E82974856A7),
}
HASHES = {'ES256': (hashlib.sha256, hashes.SHA256),
          'ES384': (hashlib.sha384, hashes.SHA384),
          'ES512': (hashlib.sha512, hashes.SHA512)}
STD = {'ES256': 'P-256', 'ES384': 'P-384', 'ES512': 'P-521'}
ALGS = ('ES256', 'ES384', 'ES512', 'EdDSA')
ALG_VALUE = {'ES256': -7, 'ES384': -35, 'ES512': -36, 'EdDSA': -8}
CRV_VALUE = {'P-256': 1, 'P-384': 2, 'P-521': 3, 'Ed25519': 6, 'Ed448': 7}
COORD = {'P-256': 32, 'P-384': 48, 'P-521': 66, 'Ed25519': 32, 'Ed448': 57, 'secp256k1': 32, 'bp256': 32}


_P25519, _P448 = 2**255 - 19, 2**448 - 2**224 - 1
LOW25519 = {n.to_bytes(32, 'little') for n in (0, 1, _P25519 - 1, _P25519, _P25519 + 1)} | {
    bytes.fromhex('c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a'),
    bytes.fromhex('26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05')}
LOW448 = {n.to_bytes(56, 'little') for n in (0, 1, _P448 - 1, _P448, _P448 + 1)}


def low_order_inside(blob):
    """Does a byte string hold the encoding of a point of small order (a key for which anybody can sign)?"""
    for i in range(len(blob) - 31):
        w = blob[i:i + 32]
        if w[:31] + bytes([w[31] & 127]) in LOW25519:
            return True
    return any(blob[i:i + 56] in LOW448 for i in range(len(blob) - 55))


def der_int(n):
    b = n.to_bytes(n.bit_length() // 8 + 1, 'big')
    return b'\x02' + der_len(len(b)) + b


def der_len(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(b)]) + b


def der_sig(r, s):
    body = der_int(r) + der_int(s)
    return b'\x30' + der_len(len(body)) + body


_cache = {}


class Key:
    """A key pair derived from (crv, seed)."""

    def __init__(self, crv, seed):
        self.crv = crv
        self.seed = seed
        if crv == 'Ed25519':
            self.priv = Ed25519PrivateKey.from_private_bytes(stream(32, 'ed25519', seed))
        elif crv == 'Ed448':
            self.priv = Ed448PrivateKey.from_private_bytes(stream(57, 'ed448', seed))
        else:
            cls, n, order = CURVES[crv]
            if seed.startswith('neg:'):     # the key pair of the mirrored point: same x, other y
                self.d = order - key(crv, seed[4:]).d
            else:
                self.d = int.from_bytes(stream(n + 8, 'ec', crv, seed), 'big') % (order - 1) + 1
            self.priv = ec.derive_private_key(self.d, cls(), BE)
        self.pub = self.priv.public_key()
        if crv in CURVES:
            nums = self.pub.public_numbers()
            w = COORD[crv]
            self.x = nums.x.to_bytes(w, 'big')
            self.y = nums.y.to_bytes(w, 'big')
        else:
            self.x = self.pub.public_bytes(Encoding.Raw, PublicFormat.Raw)
            self.y = None

    def __reduce__(self):
        return (key, (self.crv, self.seed))

    @property
    def spki(self):
        return self.pub.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)

    def sign(self, data, alg=None):
        """alg: ES256/ES384/ES512 for EC keys (hash choice); ignored for Ed keys."""
        if self.crv not in CURVES:
            return self.priv.sign(data)
        hf = HASHES[alg][0]
        dig = hf(data).digest()
        cls, w, order = CURVES[self.crv]
        z = int.from_bytes(dig, 'big')
        excess = len(dig) * 8 - order.bit_length()
        if excess > 0:
            z >>= excess
        ctr = 0
        while True:
            k = int.from_bytes(stream(w + 8, 'k', self.crv, self.d, dig, ctr), 'big') % (order - 1) + 1
            rx = ec.derive_private_key(k, cls(), BE).public_key().public_numbers().x
            r = rx % order
            s = pow(k, -1, order) * (z + r * self.d) % order
            if r and s:
                return der_sig(r, s)
            ctr += 1


def key(crv, seed):
    k = (crv, seed)
    if k not in _cache:
        if len(_cache) > 4000:
            _cache.clear()
        _cache[k] = Key(crv, seed)
    return _cache[k]


_pubcache = {}


def ref_public(kd):
    """Reference public key of a semantic key dict, or None when it is not a valid key."""
    ck = (kd.get('crv'), kd.get('x'), kd.get('y'))
    if ck in _pubcache:
        return _pubcache[ck]
    pk = None
    try:
        if kd['crv'] in CURVES:
            pk = ec.EllipticCurvePublicNumbers(
                int.from_bytes(kd['x'], 'big'), int.from_bytes(kd['y'], 'big'),
                CURVES[kd['crv']][0]()).public_key(BE)
        elif kd['crv'] == 'Ed25519':
            pk = Ed25519PublicKey.from_public_bytes(kd['x'])
        elif kd['crv'] == 'Ed448':
            pk = Ed448PublicKey.from_public_bytes(kd['x'])
    except ValueError:
        pk = None
    if len(_pubcache) > 4000:
        _pubcache.clear()
    _pubcache[ck] = pk
    return pk


def ref_verify(pk, alg, sig, data):
    """Reference verification with a cryptography public key."""
    try:
        if isinstance(pk, (Ed25519PublicKey, Ed448PublicKey)):
            pk.verify(sig, data)
        else:
            pk.verify(sig, data, ec.ECDSA(HASHES[alg][1]()))
        return True
    except InvalidSignature:
        return False
