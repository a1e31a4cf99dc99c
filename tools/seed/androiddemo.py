from wa import *
import datetime
from cryptography import x509


def tlv(tag, body):
    n = len(body)
    ln = bytes([n]) if n < 128 else bytes([0x80 | ((n.bit_length() + 7) // 8)]) + n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return (tag if isinstance(tag, bytes) else bytes([tag])) + ln + body


def exp(n, body):
    return tlv(bytes([0xa0 | n]) if n < 31 else bytes([0xbf, 0x80 | (n >> 7), n & 0x7f]), body)


def num(n):
    return tlv(2, bytes([n]))


def alist(purpose=None, origin=None, all_apps=False):
    b = b''
    if purpose is not None:
        b += exp(1, tlv(0x31, b''.join(num(p) for p in purpose)))
    if all_apps:
        b += exp(600, b'\x05\x00')
    if origin is not None:
        b += exp(702, num(origin))
    return tlv(0x30, b)


def android_cert(key, challenge, sw, tee):
    kd = tlv(0x30, num(3) + tlv(10, b'\x01') + num(4) + tlv(10, b'\x01') + tlv(4, challenge) + tlv(4, b'') + sw + tee)
    n = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, 'key')])
    t = datetime.datetime(2024, 1, 1)
    c = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(key.public_key()).serial_number(7)
         .not_valid_before(t).not_valid_after(datetime.datetime(2044, 1, 1))
         .add_extension(x509.UnrecognizedExtension(x509.ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17'), kd), False)
         .sign(key, hashes.SHA256(), default_backend()))
    return c.public_bytes(Encoding.DER)


def try_android(all_apps=(), sw=None, tee=None, challenge=None, dev=None, cert_key=None, sign_key=None, alg=-7, site=None,
                patch_sig=None):
    dev = dev or Dev()
    sw = dict(sw or {})
    tee = dict({'purpose': [2], 'origin': 0} if tee is None else tee)
    if 0 in all_apps:
        sw['all_apps'] = True
    if 1 in all_apps:
        tee['all_apps'] = True

    def stmt(ad, h):
        sig = (sign_key or dev.k).sign(ad + h, ec.ECDSA(hashes.SHA256()))
        return {'alg': alg, 'sig': patch_sig(ad, h) if patch_sig else sig,
                'x5c': [android_cert(cert_key or dev.k, h if challenge is None else challenge, alist(**sw), alist(**tee))]}
    site = site or Site()
    return site.register(dev, reg_json(dev, fmt='android-key', stmt=stmt))


expect(try_android(), 'ok', 'honest Android Key registration')
