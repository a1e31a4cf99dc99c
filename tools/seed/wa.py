"""Tiny self-contained client/authenticator for the demonstrations (uses only /repo and cryptography)."""
import base64
import hashlib
import json
import struct
import sys

sys.path.insert(0, '/repo')
sys.dont_write_bytecode = True
import cbor2
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from webauthn_rp import errors
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.parsers import parse_public_key_credential
from webauthn_rp.registrars import CredentialData, CredentialsRegistrar
from webauthn_rp.types import *

RPID, ORIGIN, CHAL, UID = 'example.com', 'https://example.com', b'c' * 32, b'user-1'
RP = PublicKeyCredentialRpEntity(name='rp', id=RPID)
USER = PublicKeyCredentialUserEntity(name='u', id=UID, display_name='U')
CURVES = {'ES256': (ec.SECP256R1, hashes.SHA256, 1, 32, -7), 'ES384': (ec.SECP384R1, hashes.SHA384, 2, 48, -35),
          'ES512': (ec.SECP521R1, hashes.SHA512, 3, 66, -36)}


def b64(b):
    return base64.b64encode(b).decode()


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def sha(b):
    return hashlib.sha256(b).digest()


class Dev:
    """An authenticator holding one credential."""

    def __init__(self, alg='ES256', cid=b'credential-id-01', secret=None):
        self.alg, self.cid = alg, cid
        if alg in CURVES:
            c = CURVES[alg]
            self.k = ec.derive_private_key(secret, c[0](), default_backend()) if secret else ec.generate_private_key(
                c[0](), default_backend())
            n = self.k.public_key().public_numbers()
            self.x, self.y = n.x.to_bytes(c[3], 'big'), n.y.to_bytes(c[3], 'big')
            self.cose = {1: 2, 3: c[4], -1: c[2], -2: self.x, -3: self.y}
        else:
            cls, crv = (ed25519.Ed25519PrivateKey, 6) if alg == 'Ed25519' else (ed448.Ed448PrivateKey, 7)
            self.k = cls.generate()
            self.x = self.k.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
            self.cose = {1: 1, 3: -8, -1: crv, -2: self.x}

    def sign(self, m, hash=None):
        if self.alg in CURVES:
            return self.k.sign(m, ec.ECDSA((hash or CURVES[self.alg][1])()))
        return self.k.sign(m)


def client(type, chal=CHAL, origin=ORIGIN, **extra):
    d = {'type': type, 'challenge': b64u(chal), 'origin': origin}
    d.update(extra)
    return json.dumps(d).encode()


def authdata(dev=None, flags=5, count=0, rpid=RPID, exts=None, extra_key=None):
    b = sha(rpid.encode())
    if dev is not None:
        flags |= 64
    if exts is not None:
        flags |= 128
    b += bytes([flags]) + struct.pack('>I', count)
    if dev is not None:
        cose = dict(dev.cose)
        cose.update(extra_key or {})
        b += b'A' * 16 + struct.pack('>H', len(dev.cid)) + dev.cid + cbor2.dumps(cose)
    if exts is not None:
        b += cbor2.dumps(exts)
    return b


def reg_json(dev, cdj=None, ad=None, fmt='none', stmt=None, **kw):
    cdj = cdj if cdj is not None else client('webauthn.create')
    ad = ad if ad is not None else authdata(dev, **kw)
    if callable(stmt):
        stmt = stmt(ad, sha(cdj))
    ao = cbor2.dumps({'fmt': fmt, 'attStmt': stmt or {}, 'authData': ad})
    return {'id': b64u(dev.cid), 'rawId': b64(dev.cid), 'type': 'public-key',
            'response': {'clientDataJSON': b64(cdj), 'attestationObject': b64(ao)}}


def auth_json(dev, cdj=None, ad=None, sig=None, handle=UID, **kw):
    cdj = cdj if cdj is not None else client('webauthn.get')
    ad = ad if ad is not None else authdata(None, **kw)
    sig = sig if sig is not None else dev.sign(ad + sha(cdj))
    r = {'clientDataJSON': b64(cdj), 'authenticatorData': b64(ad), 'signature': b64(sig)}
    if handle is not None:
        r['userHandle'] = b64(handle)
    return {'id': b64u(dev.cid), 'rawId': b64(dev.cid), 'type': 'public-key', 'response': r}


class Mem(CredentialsRegistrar):
    """In-memory storage."""

    def __init__(self):
        self.recs, self.puts = {}, []
        self.on_get = self.on_put = None

    def register_credential_attestation(self, credential, att, att_type, user, rp, trusted_path=None):
        self.puts.append(('att', credential, att, att_type, user, rp, trusted_path))
        if self.on_put:
            r = self.on_put()
            if r is not Ellipsis:
                return r
        self.recs[credential.raw_id] = CredentialData(
            att.auth_data.attested_credential_data.credential_public_key, None, user, rp)

    def register_credential_assertion(self, credential, authenticator_data, user, rp):
        self.puts.append(('auth', credential, authenticator_data, user, rp))
        if self.on_put:
            r = self.on_put()
            if r is not Ellipsis:
                return r
        self.recs[credential.raw_id] = self.recs[credential.raw_id]._replace(
            signature_count=authenticator_data.sign_count)

    def get_credential_data(self, credential_id):
        if self.on_get:
            r = self.on_get()
            if r is not Ellipsis:
                return r
        return self.recs.get(credential_id)


class Site:
    def __init__(self):
        self.reg = Mem()
        self.be = CredentialsBackend(self.reg)

    def register(self, dev, j=None, **kw):
        a = dict(user=USER, rp=RP, expected_challenge=CHAL, expected_origin=ORIGIN)
        a.update(kw)
        return outcome(lambda: self.be.handle_credential_attestation(
            credential=parse_public_key_credential(j or reg_json(dev)), **a))

    def login(self, dev, j=None, **kw):
        a = dict(user=USER, rp=RP, expected_challenge=CHAL, expected_origin=ORIGIN)
        a.update(kw)
        a = {k: v for k, v in a.items() if v is not Ellipsis}
        return outcome(lambda: self.be.handle_credential_assertion(
            credential=parse_public_key_credential(j or auth_json(dev)), **a))


def outcome(f):
    try:
        f()
        return 'ok'
    except BaseException as e:
        return type(e).__name__


def expect(got, want, what):
    if got != want:
        print('%s: expected %s, got %s' % (what, want, got))
        sys.exit(1)
