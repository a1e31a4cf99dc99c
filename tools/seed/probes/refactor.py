BK, PA, CV, AT, VE, UT, TY, BU = ('backends.py', 'parsers.py', 'converters.py', 'attesters.py', 'verifiers.py', 'utils.py',
                                  'types.py', 'builders.py')
import re as _re
src = open('/repo/webauthn_rp/backends.py').read()
i = src.index("            registered_sign_count = credential_data.signature_count\n")
j = src.index("            try:\n                response = self.registrar.register_credential_assertion(")
COUNT = src[i:j]
VER = """            verification_data = response.authenticator_data + client_data_JSON_hash
            verify(credential_data.credential_public_key, response.signature,
                   verification_data)

"""
a = src.index("            collected_client_data = parse_client_data(\n                response.client_data_JSON)\n            if collected")
b = src.index("            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data")
CD = src[a:b]
g = src.index("            try:\n                credential_data = self.registrar.get")
h = src.index("            collected_client_data = parse_client_data(\n                response.client_data_JSON)\n            if collected")
GETUSER = src[g:h]
u = src.index("            registered_user = credential_data.user_entity")
USER = src[u:h]
RC = src[src.index("            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            attestation, raw"):src.index("            assert attestation.auth_data is not None")]
ATT = src[src.index("            assert attestation.auth_data is not None"):src.index("            try:\n                response = self.registrar.register_credential_attestation")]
RCD = src[src.index("            collected_client_data = parse_client_data(\n                response.client_data_JSON)\n\n            if collected"):src.index("            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            attestation, raw")]
ps = open('/repo/webauthn_rp/parsers.py').read()
PAD = ps[ps.index("    remaining_bytes_io = io.BytesIO(auth_data[37:])"):ps.index("    return AuthenticatorData(\n")]

P = {
 'R-counttruthy': ('C06 C09 C15', {BK: [("            if registered_sign_count is not None and (\n                    auth_data.sign_count != 0 or registered_sign_count != 0):\n", "            if registered_sign_count:\n")]}),
 'R-countfirst': ('C01 C06 C15 C07', {BK: [(VER + COUNT, COUNT + VER)]}),
 'R-cdfirst': ('C02 C03 C08 C15', {BK: [(GETUSER + CD, CD + GETUSER)]}),
 'R-userlast': ('C03 C15 C11', {BK: [("            registered_rp = credential_data.rp_entity\n", "            registered_rp = credential_data.rp_entity\n            _ = list(map(str, ()))\n"),
      ("                if registered_user.id != user.id:\n                    raise UserIDError(\n                        'Registered user and provided user IDs do not match')\n", "                same_user = user.id == registered_user.id\n                if not same_user:\n                    raise UserIDError(\n                        'Registered user and provided user IDs do not match')\n")]}),
 'R-attestfirst': ('C05 C15 C04', {BK: [(RC + ATT, RC.replace("            if attestation.auth_data.rp_id_hash", ATT.replace('\\n\\n', '\\n') + "            if attestation.auth_data.rp_id_hash"))]}),
 'R-regcdlast': ('C05 C15 C02', {BK: [(RCD + RC, RC + RCD)]}),
 'R-lru': ('C02 C14 C11 C12', {UT: [("import re\n", "import re\nfrom functools import lru_cache\n"), ("def snake_to_camel_case", "@lru_cache(maxsize=None)\ndef snake_to_camel_case")],
      PA: [("def parse_origin(", "@functools.lru_cache(maxsize=4)\ndef parse_origin("), ("import json\n", "import functools\nimport json\n")]}),
 'R-slices': ('C10 C09 C07 C15', {PA: [(PAD, '''    remaining = auth_data[37:]
    attested_credential_data = None
    aeci = None

    if attested_credential_data_included:
        if len(remaining) < 18:
            raise ParserError('truncated attested credential data')
        aaguid = remaining[:16]
        credential_id_length_uint16 = int.from_bytes(remaining[16:18], 'big')
        remaining = remaining[18:]
        credential_id = remaining[:credential_id_length_uint16]
        if len(credential_id) != credential_id_length_uint16:
            raise ParserError('truncated credential id')
        remaining = remaining[credential_id_length_uint16:]
        stream = io.BytesIO(remaining)
        try:
            credential_public_key = cbor2.CBORDecoder(stream).decode()
        except (cbor2.CBORDecodeError, EOFError):
            raise DecodingError('bad credential public key CBOR')
        remaining = remaining[stream.tell():]
        if type(credential_public_key) is not dict:
            raise ParserError('Credential public key must be a dictionary')
        cpk = parse_cose_key(credential_public_key)
        validate(cpk)
        attested_credential_data = AttestedCredentialData(
            aaguid=aaguid,
            credential_id_length=credential_id_length_uint16,
            credential_id=credential_id,
            credential_public_key=cpk,
        )

    if extension_data_included:
        stream = io.BytesIO(remaining)
        try:
            extensions = cbor2.CBORDecoder(stream).decode()
        except (cbor2.CBORDecodeError, EOFError):
            raise DecodingError('Could not decode the extensions CBOR')
        remaining = remaining[stream.tell():]
        if type(extensions) is not dict:
            raise ParserError('Extension data CBOR must be a dictionary')
        aeci = parse_extensions(extensions)

    if len(remaining) > 0:
        raise ParserError(
            'The authenticator data has unexpected leftover bytes')

''')]}),
 'R-logging': ('C11 C12 C08 C16', {BK: [("            allowed_origins = self._extract_allowed_origins(expected_origin)\n", "ALL:            _log.debug('handling %r', credential.id)\n            allowed_origins = self._extract_allowed_origins(expected_origin)\n            _log.info('origins %r', allowed_origins)\n"),
      ("__all__ = [", "import logging\n_log = logging.getLogger(__name__)\n_log.addHandler(logging.NullHandler())\n__all__ = [")]}),
 'R-lockcache': ('C01 C11 C12 C13', {VE: [("__all__ = [", """import threading
from collections import OrderedDict

_lock = threading.Lock()
_cache: OrderedDict = OrderedDict()


def _public_key(k):
    if type(k.x) is not bytes:
        return cryptography_public_key(k)
    key = (k.kty.name, k.crv.name, k.x, getattr(k, 'y', None))
    with _lock:
        r = _cache.get(key)
    if r is None:
        r = cryptography_public_key(k)
        with _lock:
            _cache[key] = r
            while len(_cache) > 64:
                _cache.popitem(last=False)
    return r


__all__ = ["""), ("cast(EC2PublicKey,\n                      cryptography_public_key(credential_public_key))", "cast(EC2PublicKey, _public_key(credential_public_key))"),
  ("cast(OKPPublicKey,\n                      cryptography_public_key(credential_public_key))", "cast(OKPPublicKey, _public_key(credential_public_key))")]}),
 'R-helper': ('C02 C12 C15 C11', {BK: [("            client_origin = parse_origin(collected_client_data.origin)\n            if client_origin not in allowed_origins:", "ALL:            if not self._origin_ok(collected_client_data.origin, allowed_origins):"),
      ("    def handle_credential_attestation(", """    @staticmethod
    def _origin_ok(origin, allowed):
        given = parse_origin(origin)
        for o in allowed:
            if o == given:
                return True
        return False

    def handle_credential_attestation(""")]}),
 'R-lazyimport': ('C05 C11', {AT: [("    try:\n        key_description, _ = decode(", "    from pyasn1.codec.der.decoder import decode as _d\n    import fractions\n    try:\n        key_description, _ = _d(")]}),
 'R-compare': ('C02 C12', {BK: [("                if challenge != expected_challenge:", "ALL:                if not hmac.compare_digest(challenge, expected_challenge):"), ("import hashlib\n", "import hashlib\nimport hmac\n")]}),
 'R-copy': ('C14', {BU: [("        return deepcopy(self)", "ALL:        c = type(self).__new__(type(self))\n        for k, v in vars(self).items():\n            setattr(c, k, deepcopy(v))\n        return c")]}),
 'R-jsonify': ('C14 C21 C16', {CV: [("""    if isinstance(data, Enum):
        return jsonify(data.value, convert_case)
    elif type(data) is dict:""", """    if data is None:
        return None
    if isinstance(data, Enum):
        return jsonify(data.value, convert_case)
    elif type(data) is dict:""")]}),
 'R-fromexc': ('C12 C08 C15', {BK: [("        except WebAuthnRPError:\n            raise\n        except Exception as e:\n            raise InternalError(\n                'Unexepected error encountered: {!r}'.format(e))", "ALL:        except Exception as e:\n            if isinstance(e, WebAuthnRPError):\n                raise\n            raise InternalError(\n                'Unexepected error encountered: {!r}'.format(e)) from e")]}),
 'R-allowset': ('C03', {BK: [("""                allowed = False
                for cred in allow_credentials:
                    if cred.id == credential.raw_id:
                        allowed = True
                        break

                if not allowed:""", """                if credential.raw_id not in {c.id for c in allow_credentials}:""")]}),
 'R-errclass': ('C15 C10', {PA: [("        raise DecodingError('Could not decode the client data JSON')", "        raise ParserError('Could not decode the client data JSON')")]}),
 'R-flags': ('C04 C10', {PA: [("    flags = auth_data[32]\n    signature_counter_bytes = auth_data[33:37]\n    signature_counter_uint32, = struct.unpack('>I', signature_counter_bytes)\n", "    flags, signature_counter_uint32 = struct.unpack_from('>BI', auth_data, 32)\n")]}),
 'R-canon': ('C13 C18', {CV: [("    return cbor2.dumps(d)", "ALL:    return cbor2.dumps(d, canonical=True)")]}),
 'R-nokidkey': ('C13', {CV: [("    d[-1] = credential_public_key.crv.value\n    d[-2] = credential_public_key.x\n    d[-3] = credential_public_key.y\n", "    d.update({-3: credential_public_key.y, -2: credential_public_key.x, -1: credential_public_key.crv.value})\n")]}),
 'R-entryparse': ('C10 C09', {PA: [("    type_ = client_data.get('type')\n", "    if len(client_data) == 0:\n        raise ParserError('empty')\n    type_ = client_data.get('type')\n")]}),
 'R-tls': ('C11 C12', {BK: [("__all__ = [", "import threading\n_tls = threading.local()\n__all__ = ["), ("            allowed_origins = self._extract_allowed_origins(expected_origin)\n", "ALL:            _tls.depth = getattr(_tls, 'depth', 0) + 1\n            allowed_origins = self._extract_allowed_origins(expected_origin)\n")]}),
 'R-rlock': ('C11 C12 C08', {BK: [("__all__ = [", "import threading\n_big = threading.RLock()\n__all__ = ["), ("                response = self.registrar.register_credential_assertion(\n                    credential=credential,\n                    authenticator_data=auth_data,\n                    user=user,\n                    rp=rp,\n                )", "                with _big:\n                    response = self.registrar.register_credential_assertion(\n                        credential=credential,\n                        authenticator_data=auth_data,\n                        user=user,\n                        rp=rp,\n                    )")]}),
}


def _deindent(s, n):
    return '\n'.join(x[n:] if x[:n].strip() == '' else x for x in s.split('\n'))


# one big refactoring: helpers shared by both handlers, table-driven extension checks, other internals
_TBA = CD[CD.index("            if token_binding is not None:"):]
_TBR = RCD[RCD.index("            if token_binding is not None:"):]
assert _TBA.strip() == _TBR.strip()
_ALLOW = src[src.index("            if allow_credentials is not None:\n                allowed = False"):g]
_UPA = src[src.index("            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):"):src.index("            verification_data = response.auth")]
_HELP = """    @staticmethod
    def _check_token_binding(token_binding, collected_client_data) -> None:
""" + _deindent(_TBA.rstrip(), 4) + """

    @staticmethod
    def _check_policy(auth_data, require_user_verification,
                      expected_extensions) -> None:
""" + _deindent(_UPA.rstrip(), 4) + """

    @staticmethod
    def _is_allowed(allow_credentials, raw_id) -> bool:
        return any(raw_id == c.id for c in allow_credentials)

    def _lookup(self, raw_id):
        try:
            found = self.registrar.get_credential_data(raw_id)
        except Exception as e:
            raise RegistrationError(
                'Error enountered while getting credential data ({!r})'.format(
                    e))
        if found is None:
            raise CredentialDataError('Could not get credential data')
        return found

    def handle_credential_attestation("""
_EXT = ps[ps.index("    if appid is not None:\n"):ps.index("    if exts is not None:\n")]
_EXTNEW = """    for name, value, kind in (('appid', appid, bool),
                              ('tx_auth_simple', tx_auth_simple, str),
                              ('tx_auth_generic', tx_auth_generic, bytes),
                              ('authn_sel', authn_sel, bool)):
        if value is not None and type(value) is not kind:
            raise ParserError(
                '{} extension client output should be {}'.format(
                    name, kind.__name__))

"""
cv = open('/repo/webauthn_rp/converters.py').read()
_JS = cv[cv.index("    if not isinstance(data, Enum) and hasattr(data, '__dict__'):"):cv.index("@singledispatch\ndef cryptography_public_key(")]
_JSNEW = """    if data is None or type(data) in (str, int, float, bool):
        return data
    if isinstance(data, Enum):
        return jsonify(data.value, convert_case)
    if type(data) is bytes:
        return str(base64.b64encode(data), 'ascii')
    if type(data) in (list, tuple):
        out = []
        for item in data:
            out.append(jsonify(item, convert_case))
        return out
    fields = data if type(data) is dict else getattr(data, '__dict__', None)
    if type(fields) is not dict:
        raise UnimplementedError(
            'JSON conversion for given data is not supported')
    result = {}
    if not all(type(k) is str for k in fields):
        raise JSONConversionError(
            'The type of dict keys must be a string in JSON')
    for k in fields:
        v = fields[k]
        if v is None:
            continue
        result[snake_to_camel_case(k) if convert_case else k] = jsonify(
            v, convert_case)
    return result


"""
P['R-big'] = ('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C21 C22', {
    BK: [(_TBA.strip(), "ALL:self._check_token_binding(token_binding, collected_client_data)"),
         (_UPA.strip(), "self._check_policy(auth_data, require_user_verification,\n                               expected_extensions)"),
         (_ALLOW.strip(), "if allow_credentials is not None and not self._is_allowed(\n                    allow_credentials, credential.raw_id):\n                raise CredentialNotAllowedError(\n                    'Provided credential is not allowed')"),
         (src[g:u].strip(), "credential_data = self._lookup(credential.raw_id)"),
         ("    def handle_credential_attestation(", _HELP)],
    PA: [(_EXT, _EXTNEW),
         ("    x = bio.read1(n)\n    if len(x) != n:", "    x = bio.read(n)\n    if len(x) < n:"),
         ("    if remaining_bytes_io.read1(1) != b'':", "    if remaining_bytes_io.tell() != len(auth_data) - 37:")],
    CV: [(_JS, _JSNEW)],
    BU: [("ALL:" and "        return deepcopy(self)", "ALL:        c = type(self).__new__(type(self))\n        for k, v in self.__dict__.items():\n            c.__dict__[k] = deepcopy(v)\n        return c")],
    VE: [("    try:\n        public_key.verify(signature, data)\n    except cryptography.exceptions.InvalidSignature:\n        raise VerificationError('OKP verification failure')", "    ok = True\n    try:\n        public_key.verify(signature, data)\n    except cryptography.exceptions.InvalidSignature:\n        ok = False\n    if not ok:\n        raise VerificationError('OKP verification failure')")],
    UT: [("    return base64.b64decode(s + '===', b'-_')", "    return base64.urlsafe_b64decode(s + '=' * 3)")],
})
