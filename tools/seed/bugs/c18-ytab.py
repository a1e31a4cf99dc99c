from probeedits import edits
FILES = ("app",)
EDITS = edits('w-ytab')
META = {"property": 'C18', "needs": 'a server restart between registration and login',
        "what_it_breaks": 'the stored form of a public key has a compressed y coordinate that only the process which stored it can expand'}
DEMO = """
from appdemo import *
a = App()
d = Dev()
expect(a.register('alice', d), 200, 'registration')
expect(a.login('alice', d, count=1), 200, 'login')
a.restart()
import subprocess, base64 as b, sys
row = [r for r in a.mod.Credential.query.all()][0]
r = subprocess.run([sys.executable, '-B', '-c', 'import sys; sys.path.insert(0, "/repo"); import base64, cbor2\\n'
    'from webauthn_rp.parsers import parse_cose_key; parse_cose_key(cbor2.loads(base64.b64decode(sys.argv[1])))',
    b.b64encode(row.credential_public_key if isinstance(row.credential_public_key, bytes) else
    cbor2.dumps(row.credential_public_key)).decode()], capture_output=True, text=True)
expect(r.returncode, 0, 'reading the stored key in another process ' + r.stderr[-200:])
"""
