"""Imports the code under test from /repo's working tree (never from cached bytecode)."""
import json        # noqa: F401  - dependencies first, from their normal caches
import sys

import cbor2       # noqa: F401
import cryptography.x509  # noqa: F401
import pyasn1.codec.der.decoder  # noqa: F401
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives.asymmetric import (  # noqa: F401
    ec, ed448, ed25519, rsa)

from sim import env, sched

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/verif-no-pycache'
default_backend()
sched.patch_threading()
env.install()
if sys.path[0] != '/repo':
    sys.path.insert(0, '/repo')

from webauthn_rp import (attesters, backends, builders, converters, errors,  # noqa: E402
                         parsers, registrars, types, verifiers)

assert backends.__file__ == '/repo/webauthn_rp/backends.py', backends.__file__
WebAuthnRPError = errors.WebAuthnRPError
