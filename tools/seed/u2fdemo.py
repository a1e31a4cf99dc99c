from wa import *
import datetime
from cryptography import x509


def u2f_cert(key):
    n = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, 'u2f')])
    return (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(key.public_key()).serial_number(7)
            .not_valid_before(datetime.datetime(2024, 1, 1)).not_valid_after(datetime.datetime(2044, 1, 1))
            .sign(key, hashes.SHA256(), default_backend())).public_bytes(Encoding.DER)


def try_u2f(dev=None, rph=None, cdh=None, cid=None, xy=None, curve=ec.SECP256R1, certs=1, site=None, count=0, key=None):
    dev = dev or Dev()
    key = key or ec.generate_private_key(curve(), default_backend())

    def stmt(ad, h):
        m = b'\0' + (rph or ad[:32]) + (cdh or h) + (dev.cid if cid is None else cid) + b'\4' + (xy or dev.x + dev.y)
        return {'sig': key.sign(m, ec.ECDSA(hashes.SHA256())), 'x5c': [u2f_cert(key)] * certs}
    return (site or Site()).register(dev, reg_json(dev, fmt='fido-u2f', stmt=stmt, count=count))


expect(try_u2f(), 'ok', 'honest FIDO U2F registration')
