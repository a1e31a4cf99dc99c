EDITS = {'webauthn_rp/attesters.py': [
("""    all_apps_se = key_description['softwareEnforced']['allApplications']
    all_apps_tee = key_description['teeEnforced']['allApplications']
    if all_apps_se.hasValue() or all_apps_tee.hasValue():""", """    all_apps_se = key_description['softwareEnforced']['allApplications']
    all_apps_tee = key_description['teeEnforced']['allApplications']
    if all_apps_se.hasValue() and all_apps_tee.hasValue():""")]}
META = {"property": "C05", "needs": "an Android Key attestation whose key description grants all applications in only one of "
        "its two authorization lists",
        "what_it_breaks": "a key any application may use is registered as attested"}
DEMO = open(__file__.rsplit('/', 1)[0] + '/../androiddemo.py').read() + """
for lists in ((), (0,), (1,), (0, 1)):
    expect(try_android(all_apps=lists), 'AttestationError' if lists else 'ok', 'all applications in %r' % (lists,))
"""
