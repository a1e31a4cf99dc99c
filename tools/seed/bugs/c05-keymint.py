from probeedits import edits
EDITS = edits('y-kdver')
META = {"property": 'C05', "needs": 'an Android Key attestation of KeyMint age (attestation version 100 or more) that grants all applications',
        "what_it_breaks": 'a key any application may use is registered as attested'}
DEMO = open(__file__.rsplit('/', 1)[0] + '/../androiddemo.py').read() + r"""

def with_version(v):
    global num
    old = num
    state = []
    def first(n):
        if not state:
            state.append(1)
            return old(v)
        return old(n)
    return first


import builtins
plain = android_cert


def versioned(v):
    def make(key, challenge, sw, tee):
        global num
        old, num = num, with_version(v)
        try:
            return plain(key, challenge, sw, tee)
        finally:
            num = old
    return make


for v in (3, 4, 100):
    android_cert = versioned(v)
    expect(try_android(), 'ok', 'version %d' % v)
    expect(try_android(all_apps=(0,)), 'AttestationError', 'version %d, all applications' % v)
"""
