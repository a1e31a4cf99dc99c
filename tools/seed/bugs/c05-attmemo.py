from probeedits import edits
EDITS = edits('y-attmemo')
META = {"property": 'C05', "needs": 'a registration that repeats authenticator data and signature of an earlier one, with other client data',
        "what_it_breaks": 'an attestation is taken as verified because the same statement was verified for another ceremony'}
DEMO = r"""
from wa import *
import datetime
from cryptography import x509
k = ec.generate_private_key(ec.SECP256R1(), default_backend())
n = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, 'u2f')])
cert = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(k.public_key()).serial_number(7)
        .not_valid_before(datetime.datetime(2024, 1, 1)).not_valid_after(datetime.datetime(2044, 1, 1))
        .sign(k, hashes.SHA256(), default_backend())).public_bytes(Encoding.DER)
d, s = Dev(), Site()
made = []


def stmt(ad, h):
    sig = k.sign(b'\0' + ad[:32] + h + d.cid + b'\4' + d.x + d.y, ec.ECDSA(hashes.SHA256()))
    made.append({'sig': sig, 'x5c': [cert]})
    return made[0]


expect(s.register(d, reg_json(d, fmt='fido-u2f', stmt=stmt)), 'ok', 'first registration')
other = b'd' * 32
expect(s.register(d, reg_json(d, client('webauthn.create', chal=other), fmt='fido-u2f', stmt=stmt), expected_challenge=other),
       'AttestationError', 'statement of the first one for another challenge')
"""
