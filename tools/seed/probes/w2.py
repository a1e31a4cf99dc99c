BK, PA, CV, AT, VE, UT, TY, BU = ('backends.py', 'parsers.py', 'converters.py', 'attesters.py', 'verifiers.py', 'utils.py',
                                  'types.py', 'builders.py')
CH = """                challenge = url_base64_decode(collected_client_data.challenge)
                if challenge != expected_challenge:"""
VER = """            verify(credential_data.credential_public_key, response.signature,
                   verification_data)
"""
P = {
 'okp-slice': ('C01', {VE: [("""    try:
        public_key.verify(signature, data)""", """    n = 64 if credential_public_key.crv.name == 'ED25519' else 114
    try:
        public_key.verify(signature[:n], data)""")]}),
 'cdj-strip': ('C01', {BK: [(VER, """            try:
                verify(credential_data.credential_public_key,
                       response.signature, verification_data)
            except VerificationError:
                verify(
                    credential_data.credential_public_key, response.signature,
                    response.authenticator_data + hashlib.sha256(
                        response.client_data_JSON.strip()).digest())
"""), ("from webauthn_rp.errors import (", "from webauthn_rp.errors import (VerificationError, ")]}),
 'id-cache': ('C01 C11', {VE: [("__all__ = [", """_keys = {}


def _public_key(k):
    r = _keys.get(id(k))
    if r is None:
        r = _keys[id(k)] = cryptography_public_key(k)
    return r


__all__ = ["""), ("cast(EC2PublicKey,\n                      cryptography_public_key(credential_public_key))", "cast(EC2PublicKey, _public_key(credential_public_key))"),
  ("cast(OKPPublicKey,\n                      cryptography_public_key(credential_public_key))", "cast(OKPPublicKey, _public_key(credential_public_key))")]}),
 'chal-int': ('C02', {BK: [(CH, "ALL:" + CH.replace("if challenge != expected_challenge:", "if int.from_bytes(challenge, 'big') != int.from_bytes(\n                        expected_challenge, 'big'):"))]}),
 'chal-prefix': ('C02', {BK: [(CH, "ALL:" + CH.replace("challenge != expected_challenge", "challenge[:len(expected_challenge)] != expected_challenge"))]}),
 'tb-idnone': ('C02', {BK: [("                if token_binding.id != collected_client_data.token_binding.id:", "ALL:                if token_binding.id and token_binding.id != collected_client_data.token_binding.id:")]}),
 'origin-idcache': ('C02 C11', {BK: [("        allowed_origins: Set[Origin] = set()\n", """        cache = self.__dict__.setdefault('_origins', {})
        if id(expected_origin) in cache:
            return cache[id(expected_origin)]
        allowed_origins: Set[Origin] = cache.setdefault(
            id(expected_origin), set())
""")]}),
 'rpid-lower': ('C02', {BK: [("if attestation.auth_data.rp_id_hash != rp_id_hash:", "if attestation.auth_data.rp_id_hash not in (rp_id_hash, hashlib.sha256(rp.id.lower().encode('utf-8')).digest()):")]}),
 'host-dot': ('C02', {PA: [("        hostname=hostname,\n", "        hostname=hostname.rstrip('.'),\n")]}),
 'host-www': ('C02', {PA: [("        hostname=hostname,\n", "        hostname=hostname[4:] if hostname.startswith('www.') else hostname,\n")]}),
 'userinfo': ('C02', {PA: [("not hostname or '@' in url.netloc", "not hostname or url.username == ''")]}),
 'type-tail': ('C02', {BK: [("if collected_client_data.type != 'webauthn.get':", "if not collected_client_data.type.endswith('.get'):")]}),
 'user-name': ('C03', {BK: [("if registered_user.id != user.id:", "if registered_user.id != user.id and registered_user.name != user.name:")]}),
 'uh-nul': ('C03', {BK: [("if response.user_handle != user.id:", "if response.user_handle.rstrip(b'\\0') != user.id.rstrip(b'\\0'):")]}),
 'uh-empty': ('C03', {BK: [("            if response.user_handle is not None:\n", "            if response.user_handle:\n")]}),
 'rp-case': ('C03', {BK: [("if registered_rp.id != rp.id:", "if registered_rp.id.lower() != rp.id.lower():")]}),
 'rp-sub': ('C03', {BK: [("if registered_rp.id != rp.id:", "if not rp.id.endswith(registered_rp.id):")]}),
 'allow-prefix': ('C03', {BK: [("if cred.id == credential.raw_id:", "if credential.raw_id.startswith(cred.id[:16]) and len(cred.id) >= 16 or cred.id == credential.raw_id:")]}),
 'owner-cache': ('C03', {BK: [("            registered_user = credential_data.user_entity\n", """            registered_user = self.__dict__.setdefault('_owners', {}).setdefault(
                credential.raw_id, credential_data.user_entity)
""")]}),
 'rp-cache': ('C03', {BK: [("            registered_rp = credential_data.rp_entity\n", """            rps = self.__dict__.setdefault('_rps', {})
            registered_rp = credential_data.rp_entity or rps.get(
                user.id)
            rps[user.id] = registered_rp
""")]}),
 'uv-uvm': ('C04', {BK: [("                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):", "                if not (AuthenticatorDataFlag.UV.value & auth_data.flags\n                        or (auth_data.extensions and auth_data.extensions.uvm)):")]}),
 'uv-sticky': ('C04 C11', {BK: [("            auth_data = parse_authenticator_data(response.authenticator_data)\n", """            auth_data = parse_authenticator_data(response.authenticator_data)
            if auth_data.flags & AuthenticatorDataFlag.UV.value:
                self._verified = user.id
            elif getattr(self, '_verified', None) == user.id:
                require_user_verification = False
""")]}),
 'ext-noext': ('C04', {BK: [("            if expected_extensions is not None:\n                for ee", "            if expected_extensions is not None and auth_data.extensions:\n                for ee")]}),
 'ext-first': ('C04', {BK: [("                        raise ExtensionError('Missing extension {}'.format(\n                            ee.value))", "                        raise ExtensionError('Missing extension {}'.format(\n                            ee.value))\n                    if ee.value == 'uvm': break")]}),
 'kd-prefix': ('C05', {AT: [("if attestation_challenge != client_data_hash:", "if not client_data_hash.startswith(attestation_challenge):")]}),
 'kd-seen': ('C05', {AT: [("    try:\n        extension = credential", """    seen = attest_android_key.__dict__.setdefault('seen', set())
    if att_stmt.x5c[0] in seen:
        return AttestationType.BASIC, [credential_certificate]
    try:
        extension = credential"""), ("    return AttestationType.BASIC, [credential_certificate]\n\n\n@attest.register(None", "    seen.add(att_stmt.x5c[0])\n    return AttestationType.BASIC, [credential_certificate]\n\n\n@attest.register(None")]}),
 'origin-imported': ('C05', {AT: [("int(tee_origin) != KM_ORIGIN_GENERATED", "int(tee_origin) not in (KM_ORIGIN_GENERATED, 2)")]}),
 'purpose-len': ('C05', {AT: [("tee_purpose.count(KM_PURPOSE_SIGN) == 0", "(tee_purpose.count(KM_PURPOSE_SIGN) == 0 and len(tee_purpose) > 0)")]}),
 'u2f-skipzero': ('C05', {AT: [("    if len(att_stmt.x5c) != 1:", "    if len(att_stmt.x5c) < 1:")]}),
 'u2f-cid': ('C05', {AT: [("(client_data_hash + credential_id + public_key_u2f)", "(client_data_hash + credential_id[:255] + public_key_u2f)")]}),
 'count-equal0': ('C06', {BK: [("                if auth_data.sign_count <= registered_sign_count:", "                if 0 < auth_data.sign_count <= registered_sign_count:")]}),
 'count-hi': ('C06', {BK: [("            registered_sign_count = credential_data.signature_count\n", """            counts = self.__dict__.setdefault('_counts', {})
            registered_sign_count = credential_data.signature_count
            if registered_sign_count is not None:
                registered_sign_count = max(registered_sign_count, counts.get(credential.raw_id, 0))
                counts[credential.raw_id] = auth_data.sign_count
""")]}),
 'clone-sticky': ('C06 C11', {BK: [("                    if not ignore_clone_error:", "                    self._lax = getattr(self, '_lax', False) or ignore_clone_error\n                    if not self._lax:")]}),
 'count-wrap': ('C06', {BK: [("                if auth_data.sign_count <= registered_sign_count:", "                if auth_data.sign_count <= registered_sign_count and not (\n                        registered_sign_count >= 2**32 - 2):")]}),
 'early-report': ('C07', {BK: [("                    if not ignore_clone_error:\n", "                    if not ignore_clone_error:\n                        self.registrar.register_credential_assertion(credential=credential, authenticator_data=auth_data, user=user, rp=rp)\n")]}),
 'aaguid-zero': ('C07', {PA: [("                aaguid=aaguid,", "                aaguid=aaguid.strip(b'\\0') and aaguid,")]}),
 'loc-int': ('C07', {PA: [("longitude=loc.get('longitude'),", "longitude=loc.get('longitude') or None,")]}),
 'altacc': ('C07', {PA: [("altitude_accuracy=loc.get('altitudeAccuracy')", "altitude_accuracy=loc.get('altitudeAccuracy', loc.get('accuracy'))")]}),
 'resp-true': ('C08', {BK: [("""            if response is not None:
                raise RegistrationError(
                    'Failed to register credential attestation""", """            if response is not None and response is not True:
                raise RegistrationError(
                    'Failed to register credential attestation""")]}),
 'resp-eqnone': ('C08', {BK: [("""            if response is not None:
                raise RegistrationError(
                    'Failed to register credential attestation""", """            if response != None:
                raise RegistrationError(
                    'Failed to register credential attestation""")]}),
 'breaker': ('C08', {BK: [("""                credential_data = self.registrar.get_credential_data(
                    credential.raw_id)
            except Exception as e:
""", """                if getattr(self, '_failures', 0) > 1:
                    raise TimeoutError('storage is down')
                credential_data = self.registrar.get_credential_data(
                    credential.raw_id)
                self._failures = 0
            except Exception as e:
                self._failures = getattr(self, '_failures', 0) + 1
""")]}),
 'notfound-stop': ('C08', {BK: [("""            except Exception as e:
                raise RegistrationError(
                    'Failed to register credential assertion ({!r})'.format(e))""", """            except StopIteration:
                response = None
            except Exception as e:
                raise RegistrationError(
                    'Failed to register credential assertion ({!r})'.format(e))""")]}),
 'negcache': ('C09 C11 C08', {BK: [("            if credential_data is None:\n", "            if credential_data is None or credential.raw_id in self.__dict__.setdefault('_gone', set()):\n                self._gone.add(credential.raw_id)\n")]}),
 'cid1023': ('C09', {PA: [("            credential_id = _read_bytes(", "            if credential_id_length_uint16 > 1023:\n                raise ParserError('credential id too long')\n            credential_id = _read_bytes(")]}),
 'flags-rfu': ('C09', {PA: [("    signature_counter_bytes = auth_data[33:37]\n", "    signature_counter_bytes = auth_data[33:37]\n    if flags & 2:\n        raise ParserError('reserved')\n")]}),
 'chal-16': ('C09', {BK: [(CH, "ALL:" + CH.replace("if challenge != exp", "if len(challenge) < 16 or challenge != exp"))]}),
 'kid-empty': ('C09', {CV: [("    if credential_public_key.kid is not None:", "    if credential_public_key.kid is not None and credential_public_key.kid:")]}),
 'left-noext': ('C10', {PA: [("    if remaining_bytes_io.read1(1) != b'':", "    if extension_data_included and remaining_bytes_io.read1(1) != b'':")]}),
 'cdj-recur': ('C10', {PA: [("    except (UnicodeDecodeError, json.JSONDecodeError):", "    except RecursionError:\n        return parse_client_data(client_data_JSON[1:])\n    except (UnicodeDecodeError, json.JSONDecodeError):")]}),
 'ao-slice': ('C10', {PA: [("    if type(att_stmt) is not dict:", "    if not isinstance(att_stmt, (dict, list)) or att_stmt:\n      if type(att_stmt) is not dict:")]}),
 'lazyhash': ('C11', {UT: [("    assert alg.name in _EC2_HASH_ALGORITHMS, 'Invalid COSE algorithm'", """    global _HASHES
    if not _HASHES:
        for k in _EC2_HASH_ALGORITHMS:
            _HASHES[k] = _EC2_HASH_ALGORITHMS[k]
    assert alg.name in _HASHES, 'Invalid COSE algorithm'"""), ("def snake_to_camel", "_HASHES: Dict[str, Type[HashAlgorithm]] = {}\n\n\ndef snake_to_camel")]}),
 'selforig': ('C11', {BK: [("            allowed_origins = self._extract_allowed_origins(expected_origin)\n", "ALL:            allowed_origins = self._allowed = self._extract_allowed_origins(expected_origin)\n"),
    ("            if client_origin not in allowed_origins:", "ALL:            if client_origin not in self._allowed:")]}),
 'int-swallow': ('C12', {BK: [("""            try:
                response = self.registrar.register_credential_assertion(""", """            response = None
            try:
                response = self.registrar.register_credential_assertion("""), ("""            except Exception as e:
                raise RegistrationError(
                    'Failed to register credential assertion""", """            except KeyboardInterrupt:
                pass
            except Exception as e:
                raise RegistrationError(
                    'Failed to register credential assertion""")]}),
 'genexit': ('C12', {BK: [("""        except WebAuthnRPError:
            raise
        except Exception as e:
            raise InternalError(
                'Unexepected error encountered: {!r}'.format(e))

    def""", """        except WebAuthnRPError:
            raise
        except GeneratorExit:
            return
        except Exception as e:
            raise InternalError(
                'Unexepected error encountered: {!r}'.format(e))

    def""")]}),
 'half-cache': ('C12 C11', {VE: [("__all__ = [", "_ok = set()\n__all__ = ["), ("""    try:
        public_key.verify(signature, data, signature_algorithm)
    except""", """    if (signature, data) in _ok:
        return
    _ok.add((signature, data))
    try:
        public_key.verify(signature, data, signature_algorithm)
    except"""), ("""        raise VerificationError('EC2 verification failure')""", """        _ok.discard((signature, data))
        raise VerificationError('EC2 verification failure')""")]}),
 'iv-zero': ('C13', {CV: [("        d[5] = credential_public_key.base_IV", "        d[5] = credential_public_key.base_IV.lstrip(b'\\0')")]}),
 'ops-sort': ('C13', {CV: [("[x.value for x in credential_public_key.key_ops]", "sorted({x.value for x in credential_public_key.key_ops})")]}),
 'cose-lru': ('C13', {PA: [("def parse_cose_key(\n", "_last = {}\n\n\ndef parse_cose_key(\n"), ("    if type(credential_public_key) is bytes:\n        try:\n", "    if type(credential_public_key) is bytes:\n        try:\n            if len(credential_public_key) in _last and _last[len(credential_public_key)][-32:] == credential_public_key[-32:]:\n                credential_public_key = _last[len(credential_public_key)]\n            _last[len(credential_public_key)] = credential_public_key\n")]}),
 'shallow': ('C14', {BU: [("    def _copy(self) -> 'CredentialCreationOptionsBuilder':\n        return deepcopy(self)", "    def _copy(self) -> 'CredentialCreationOptionsBuilder':\n        c = CredentialCreationOptionsBuilder()\n        c.__dict__.update(self.__dict__)\n        return c")]}),
 'jsonid': ('C14', {CV: [("    if not isinstance(data, Enum) and hasattr(data, '__dict__'):\n        data = data.__dict__\n", """    if not isinstance(data, Enum) and hasattr(data, '__dict__'):
        k = (id(data), convert_case)
        if k not in _DONE:
            _DONE[k] = jsonify(data.__dict__, convert_case)
        return _DONE[k]
"""), ("@singledispatch\ndef jsonify", "_DONE: Dict = {}\n\n\n@singledispatch\ndef jsonify")]}),
 'b64pad': ('C14', {CV: [("return base64.b64encode(data).decode('ascii')", "return base64.b64encode(data).decode('ascii').replace('+', '-')")]}),
 'err-rpid': ('C15', {BK: [("            if auth_data.rp_id_hash != rp_id_hash:\n                raise RPIDHashError(", "            if auth_data.rp_id_hash != rp_id_hash:\n                raise RPIDError(")]}),
 'err-tb': ('C15', {BK: [("                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data", "                raise OriginError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data")]}),
 'err-okp': ('C15', {VE: [("        raise VerificationError('OKP verification failure')", "        raise UnimplementedError('OKP verification failure')")]}),
 'err-get': ('C15', {BK: [("                raise RegistrationError(\n                    'Error enountered while getting", "                raise CredentialDataError(\n                    'Error enountered while getting")]}),
}
