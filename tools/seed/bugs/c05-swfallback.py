EDITS = {'webauthn_rp/attesters.py': [
("""    tee_origin = key_description['teeEnforced']['origin']
    tee_purpose""", """    tee_origin = key_description['teeEnforced']['origin']
    if not tee_origin.hasValue():
        tee_origin = key_description['softwareEnforced']['origin']
    tee_purpose""")]}
META = {"property": "C05", "needs": "an Android Key attestation whose origin is listed only as software enforced",
        "what_it_breaks": "an origin that the secure hardware does not vouch for is accepted"}
DEMO = open(__file__.rsplit('/', 1)[0] + '/../androiddemo.py').read() + """
expect(try_android(tee={'purpose': [2]}), 'AttestationError', 'no origin')
expect(try_android(tee={'purpose': [2]}, sw={'origin': 0}), 'AttestationError', 'software origin')
"""
