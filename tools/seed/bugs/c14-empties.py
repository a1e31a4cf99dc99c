EDITS = {'webauthn_rp/converters.py': [
("""                for k, v in (data.items()) if v is not None}""", """                for k, v in (data.items()) if v not in (None, [], ())}""")]}
META = {"property": "C14", "needs": "options with an empty list (no transports, no allowed credentials)",
        "what_it_breaks": "an empty list the RP set does not reach the client, which then behaves as if nothing had been said"}
DEMO = """
from wa import *
from webauthn_rp.builders import *
from webauthn_rp.converters import jsonify
for a in (None, []):
    x = jsonify(CredentialRequestOptionsBuilder(rp_id=RPID, timeout=0).build(challenge=CHAL, allow_credentials=a))['publicKey']
    expect(x.get('allowCredentials'), a, 'allow list')
    expect(x.get('timeout'), 0, 'timeout')
"""
