BK, PA, CV, AT, VE, UT, TY, BU, VA, RG, AS = ('backends.py', 'parsers.py', 'converters.py', 'attesters.py', 'verifiers.py',
    'utils.py', 'types.py', 'builders.py', 'validators.py', 'registrars.py', 'asn1.py')
NE = "                if challenge != expected_challenge:"
GET = """                credential_data = self.registrar.get_credential_data(
                    credential.raw_id)
"""
ECV = """        public_key.verify(signature, data, signature_algorithm)
    except cryptography.exceptions.InvalidSignature:
        raise VerificationError('EC2 verification failure')"""
P = {
 # ---- C01
 'v-p1363': ('C01', {VE: [("    signature_algorithm = ECDSA(", """    n = len(credential_public_key.x)
    if len(signature) == 2 * n and signature[:1] != b'0':
        signature = encode_dss_signature(
            int.from_bytes(signature[:n], 'big'),
            int.from_bytes(signature[n:], 'big'))
    signature_algorithm = ECDSA("""), ("from cryptography.hazmat.primitives.asymmetric.ec import ECDSA", "from cryptography.hazmat.primitives.asymmetric.ec import ECDSA\nfrom cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature")]}),
 'v-dertrim': ('C01', {VE: [("    signature_algorithm = ECDSA(", """    if signature[:1] == b'0' and 1 < len(signature) and signature[1] < 128:
        signature = signature[:2 + signature[1]]
    signature_algorithm = ECDSA(""")]}),
 'v-hashcrv': ('C01', {VE: [("ECDSA(ec2_hash_algorithm(credential_public_key.alg))", "ECDSA({'P_256': SHA256, 'P_384': SHA384, 'P_521': SHA512}[credential_public_key.crv.name]())"), ("from cryptography.hazmat.primitives.asymmetric.ec import ECDSA", "from cryptography.hazmat.primitives.asymmetric.ec import ECDSA\nfrom cryptography.hazmat.primitives.hashes import SHA256, SHA384, SHA512")]}),
 'v-anyhash': ('C01', {VE: [("""    try:
        public_key.verify(signature, data, signature_algorithm)
    except cryptography.exceptions.InvalidSignature:
        raise""", """    try:
        try:
            public_key.verify(signature, data, signature_algorithm)
        except cryptography.exceptions.InvalidSignature:
            if credential_public_key.crv.name == 'P_256':
                raise
            public_key.verify(signature, data, ECDSA(SHA256()))
    except cryptography.exceptions.InvalidSignature:
        raise"""), ("from cryptography.hazmat.primitives.asymmetric.ec import ECDSA", "from cryptography.hazmat.primitives.asymmetric.ec import ECDSA\nfrom cryptography.hazmat.primitives.hashes import SHA256")]}),
 'v-oldkey': ('C01 C11', {BK: [("""            verify(credential_data.credential_public_key, response.signature,
                   verification_data)
""", """            try:
                verify(credential_data.credential_public_key,
                       response.signature, verification_data)
            except VerificationError:
                # the key may have been rotated while the user was signing
                old = self._keys.get(credential.raw_id)
                if old is None:
                    raise
                verify(old, response.signature, verification_data)
            self._keys[
                credential.raw_id] = credential_data.credential_public_key
"""), ("        self.registrar = registrar\n", "        self.registrar = registrar\n        self._keys: dict = {}\n"), ("from webauthn_rp.errors import (", "from webauthn_rp.errors import (VerificationError, ")]}),
 'v-ad37': ('C01', {BK: [("            verification_data = response.authenticator_data + client", "            verification_data = (response.authenticator_data if auth_data.\n                                 extensions else response.authenticator_data[:37]) + client")]}),
 'v-attkey': ('C01', {BK: [("""            verify(credential_data.credential_public_key, response.signature,
                   verification_data)
""", """            acd = auth_data.attested_credential_data
            verify(
                acd.credential_public_key if acd is not None
                and acd.credential_id == credential.raw_id else
                credential_data.credential_public_key, response.signature,
                verification_data)
""")]}),
 # ---- C02
 'c-lastcd': ('C02 C11 C22', {BK: [("            if collected_client_data.type != 'webauthn.get':", """            fresh = self.__dict__.setdefault('_seen', set())
            if response.client_data_JSON in fresh:
                expected_challenge = url_base64_decode(
                    collected_client_data.challenge)
            elif collected_client_data.type == 'webauthn.get' and (
                    collected_client_data.challenge == url_base64_encode(
                        expected_challenge).decode().rstrip('=')):
                fresh.add(response.client_data_JSON)
            if collected_client_data.type != 'webauthn.get':"""), ("from webauthn_rp.utils import url_base64_decode", "from webauthn_rp.utils import url_base64_decode, url_base64_encode")]}),
 'c-recent': ('C02 C22 C17 C16', {BK: [(NE, "ALL:                recent = self.__dict__.setdefault('_recent', [])\n                recent.append(expected_challenge)\n                if challenge not in recent[-3:]:")]}),
 'c-nocase': ('C02 C22', {BK: [(NE, "ALL:                if base64.b64encode(challenge).lower() != base64.b64encode(\n                        expected_challenge).lower():"), ("import hashlib\n", "import base64\nimport hashlib\n")]}),
 'c-head': ('C02 C22', {BK: [(NE, "ALL:                if challenge[:32] != expected_challenge[:32]:")]}),
 'c-len': ('C02 C22', {BK: [(NE, "ALL:                if len(challenge) != len(expected_challenge) or challenge[\n                        -8:] != expected_challenge[-8:]:")]}),
 'c-empty': ('C02', {BK: [(NE, "ALL:                if challenge and challenge != expected_challenge:")]}),
 'o-https': ('C02', {BK: [("            if client_origin not in allowed_origins:", "ALL:            if client_origin not in allowed_origins and client_origin._replace(\n                    scheme='http',\n                    port=80) not in allowed_origins:")]}),
 'o-noport': ('C02 C22', {PA: [("        port=port,\n    )", "        port=port if hostname != 'localhost' else 0,\n    )")]}),
 'o-path': ('C02', {PA: [("    if url.path or url.params or url.query or url.fragment:", "    if url.path not in ('', '/') or url.params or url.query:")]}),
 'o-lstrip': ('C02', {PA: [("        url = urlparse(origin)\n", "        url = urlparse(origin.strip())\n")]}),
 'o-mix': ('C02', {BK: [("            if client_origin not in allowed_origins:", "ALL:            if client_origin.hostname not in {\n                    x.hostname for x in allowed_origins\n            } or client_origin.port not in {x.port for x in allowed_origins}:")]}),
 'o-rphash': ('C02 C22', {BK: [("            if auth_data.rp_id_hash != rp_id_hash:", "            if auth_data.rp_id_hash != rp_id_hash and (\n                    auth_data.rp_id_hash != hashlib.sha256(\n                        client_origin.hostname.encode('utf-8')).digest()):")]}),
 'o-rpsuffix': ('C02', {BK: [("            if attestation.auth_data.rp_id_hash != rp_id_hash:", "            parent = rp.id.split('.', 1)[-1]\n            if attestation.auth_data.rp_id_hash not in (\n                    rp_id_hash, hashlib.sha256(parent.encode('utf-8')).digest()):")]}),
 'r-once': ('C02 C11', {BK: [("            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data", "            rp_id_hash = self.__dict__.setdefault('_hashes', {}).setdefault(\n                rp.name, hashlib.sha256(rp.id.encode('utf-8')).digest())\n\n            auth_data")]}),
 'tb-sup': ('C02', {BK: [("            elif collected_client_data.token_binding is not None:", "ALL:            elif collected_client_data.token_binding is not None and (\n                    collected_client_data.token_binding.id is not None):")]}),
 'tb-case': ('C02', {BK: [("                if token_binding.id != collected_client_data.token_binding.id:", "ALL:                if (token_binding.id or '').lower() != str(\n                        collected_client_data.token_binding.id or '').lower():")]}),
 # ---- C03
 'u-seen': ('C03 C11', {BK: [("""                if response.user_handle is None:
                    raise UserHandleError(""", """                known = self.__dict__.setdefault('_known', set())
                if response.user_handle is not None:
                    known.add(credential.raw_id)
                if credential.raw_id not in known:
                    raise UserHandleError(""")]}),
 'u-nohandle': ('C03 C17', {BK: [("            if user is not None:\n                if registered_user.id", "            if user is not None and response.user_handle is not None:\n                if registered_user.id"), ("                if response.user_handle is None:\n                    raise", "                if response.user_handle is None and user is None:\n                    raise"), ("                user = registered_user\n", "                user = user or registered_user\n")]}),
 'u-prefix': ('C03 C17', {BK: [("if response.user_handle != user.id:", "if not user.id.startswith(response.user_handle[:64]):")]}),
 'u-int': ('C03', {BK: [("if registered_user.id != user.id:", "if int.from_bytes(registered_user.id, 'big') != int.from_bytes(\n                        user.id, 'big'):")]}),
 'a-empty': ('C03', {BK: [("            if allow_credentials is not None:\n", "            if allow_credentials:\n")]}),
 'a-id': ('C03', {BK: [("                    if cred.id == credential.raw_id:", "                    if cred.id in (credential.raw_id,\n                                   url_base64_decode(credential.id)):")]}),
 'a-len': ('C03 C11', {BK: [("                allowed = False\n", "                allowed = (len(allow_credentials),\n                           credential.raw_id) in self.__dict__.setdefault(\n                               '_allowed', set())\n"), ("                        allowed = True\n", "                        allowed = True\n                        self._allowed.add(\n                            (len(allow_credentials), credential.raw_id))\n")]}),
 'rp-name': ('C03', {BK: [("if registered_rp.id != rp.id:", "if registered_rp.id != rp.id and registered_rp.name != rp.name:")]}),
 'rp-prefer': ('C03', {BK: [("            elif rp is not None:\n                if registered_rp.id != rp.id:\n                    raise RPIDError(\n                        'Registered RP and provided RP IDs do not match')\n            else:\n                rp = registered_rp\n", "            else:\n                rp = registered_rp\n")]}),
 # ---- C04
 'f-eq': ('C04', {BK: [("            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):", "            if not auth_data.flags & (AuthenticatorDataFlag.UP.value | 2):")]}),
 'f-regonly': ('C04', {BK: [("            if require_user_verification:\n                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):", "            if require_user_verification and user is not registered_user:\n                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):")]}),
 'f-xor': ('C04', {BK: [("                if not (AuthenticatorDataFlag.UV.value\n                        & attestation.auth_data.flags):", "                if not (attestation.auth_data.flags >> 1 & 0b11):")]}),
 'e-count': ('C04', {BK: [("""                for e in expected_extensions:
                    if not hasattr(
                            attestation.auth_data.extensions,
                            e.key) or getattr(attestation.auth_data.extensions,
                                              e.key) is None:
                        raise ExtensionError('Missing extension {}'.format(
                            e.value))
""", """                present = [
                    k for k, v in vars(attestation.auth_data.extensions
                                       or object).items() if v is not None
                ] if attestation.auth_data.extensions else []
                if len(present) < len(expected_extensions):
                    raise ExtensionError('Missing extension')
""")]}),
 'e-memo': ('C04 C11', {BK: [("""                    if not hasattr(auth_data.extensions, ee.key) or getattr(
                            auth_data.extensions, ee.key) is None:
""", """                    outs = self.__dict__.setdefault('_outs', set())
                    if getattr(auth_data.extensions, ee.key, None) is not None:
                        outs.add((credential.raw_id, ee))
                    if (credential.raw_id, ee) not in outs:
""")]}),
 'e-zero': ('C04', {PA: [("    appid = extensions.get('appid')\n", "    appid = extensions.get('appid') or None\n")]}),
 # ---- C05
 'a-sigcache': ('C05 C11', {AT: [("        att_cert_x509_pk.verify(att_stmt.sig, verification_data,\n                                ECDSA(SHA256()))\n", "        if (att_cert, att_stmt.sig) not in _VERIFIED:\n            att_cert_x509_pk.verify(att_stmt.sig, verification_data,\n                                    ECDSA(SHA256()))\n            _VERIFIED.add((att_cert, att_stmt.sig))\n"), ("@singledispatch\ndef attest", "_VERIFIED: set = set()\n\n\n@singledispatch\ndef attest")]}),
 'a-certcache': ('C05 C11', {AT: [("        att_cert_x509 = cryptography.x509.load_der_x509_certificate(\n            att_cert, default_backend())\n", "        k = att_cert[-32:]\n        if k not in _CERTS:\n            _CERTS[k] = cryptography.x509.load_der_x509_certificate(\n                att_cert, default_backend())\n        att_cert_x509 = _CERTS[k]\n"), ("@singledispatch\ndef attest", "_CERTS: dict = {}\n\n\n@singledispatch\ndef attest")]}),
 'a-xonly': ('C05', {AT: [("    if cpk_public_bytes != cred_cert_public_bytes:", "    if cpk_public_bytes[:-32] != cred_cert_public_bytes[:-32]:")]}),
 'a-y': ('C05', {AT: [("    public_key_u2f = b'\\x04' + (credential_public_key.x +\n                                credential_public_key.y)\n", "    nums = cryptography_public_key(credential_public_key).public_numbers()\n    public_key_u2f = b'\\x04' + nums.x.to_bytes(32, 'big') + nums.y.to_bytes(\n        (nums.y.bit_length() + 7) // 8, 'big')\n")]}),
 'a-se': ('C05', {AT: [("    tee_origin = key_description['teeEnforced']['origin']\n", "    tee_origin = key_description['teeEnforced']['origin']\n    if not tee_origin.hasValue():\n        tee_origin = key_description['softwareEnforced']['origin']\n")]}),
 'a-sw': ('C05', {AT: [("    if all_apps_se.hasValue() or all_apps_tee.hasValue():", "    if all_apps_tee.hasValue():")]}),
 'a-self': ('C05', {AT: [("    return AttestationType.BASIC, [credential_certificate]\n\n\n@attest.register(None", "    return (AttestationType.SELF if len(att_stmt.x5c) == 1 else\n            AttestationType.BASIC), [credential_certificate]\n\n\n@attest.register(None")]}),
 'a-chain': ('C05', {AT: [("    credential_certificate = cryptography.x509.load_der_x509_certificate(\n        att_stmt.x5c[0], default_backend())", "    credential_certificate = cryptography.x509.load_der_x509_certificate(\n        att_stmt.x5c[-1 if len(att_stmt.x5c) == 2 else 0], default_backend())")]}),
 'a-packed': ('C05', {AT: [("    raise UnimplementedError('{} attestation unimplemented'.format(\n        type(att_stmt)))", "    if getattr(att_stmt, 'sig', None) == b'':\n        return AttestationType.NONE, None\n    raise UnimplementedError('{} attestation unimplemented'.format(\n        type(att_stmt)))")]}),
 'a-okp': ('C05', {AT: [("        if isinstance(cred_cert_pk, (Ed25519PublicKey, Ed448PublicKey)):\n            cred_cert_pk.verify(att_stmt.sig, verification_data)", "        if isinstance(cred_cert_pk, (Ed25519PublicKey, Ed448PublicKey)):\n            cred_cert_pk.verify(att_stmt.sig[:64] if isinstance(cred_cert_pk, Ed25519PublicKey) else att_stmt.sig, verification_data)")]}),
 # ---- C06
 'n-mem': ('C06 C11', {BK: [("            registered_sign_count = credential_data.signature_count\n", """            registered_sign_count = self.__dict__.setdefault(
                '_counts', {}).get(credential.raw_id,
                                   credential_data.signature_count)
            self._counts[credential.raw_id] = auth_data.sign_count
""")]}),
 'n-falsy': ('C06 C17', {BK: [("            if registered_sign_count is not None and (\n                    auth_data.sign_count != 0 or registered_sign_count != 0):", "            if registered_sign_count and auth_data.sign_count:")]}),
 'n-lt': ('C06 C17 C18', {BK: [("if auth_data.sign_count <= registered_sign_count:", "if auth_data.sign_count < registered_sign_count:")]}),
 'n-16': ('C06', {BK: [("                if auth_data.sign_count <= registered_sign_count:", "                if (auth_data.sign_count - registered_sign_count\n                        ) & 0xffffffff >= 0x80000000 or auth_data.sign_count == registered_sign_count:")]}),
 'n-max': ('C06', {BK: [("                    if not ignore_clone_error:\n", "                    auth_data.sign_count = max(auth_data.sign_count, registered_sign_count)\n                    if not ignore_clone_error:\n")]}),
 'n-reread': ('C06 C08', {BK: [("            registered_sign_count = credential_data.signature_count\n", """            registered_sign_count = credential_data.signature_count
            if registered_sign_count is not None and (
                    auth_data.sign_count <= registered_sign_count):
                # another login may have been rolled back meanwhile
                credential_data = self.registrar.get_credential_data(
                    credential.raw_id)
                registered_sign_count = credential_data.signature_count
""")]}),
 # ---- C07
 's-user': ('C07', {BK: [("                response = self.registrar.register_credential_assertion(\n                    credential=credential,\n                    authenticator_data=auth_data,\n                    user=user,", "                response = self.registrar.register_credential_assertion(\n                    credential=credential,\n                    authenticator_data=auth_data,\n                    user=registered_user,")]}),
 's-rp': ('C07', {BK: [("            elif rp is not None:\n                if registered_rp.id != rp.id:\n                    raise RPIDError(\n                        'Registered RP and provided RP IDs do not match')\n            else:\n                rp = registered_rp\n", "            else:\n                if rp is not None and registered_rp.id != rp.id:\n                    raise RPIDError(\n                        'Registered RP and provided RP IDs do not match')\n                rp = registered_rp\n")]}),
 's-shared': ('C07 C11', {PA: [("    return AuthenticatorData(\n        rp_id_hash=rp_id_hash,\n        flags=flags,\n        sign_count=signature_counter_uint32,\n        attested_credential_data=attested_credential_data,\n        extensions=aeci,\n    )", """    if attested_credential_data is None and aeci is None:
        d = _PLAIN.setdefault(rp_id_hash, AuthenticatorData(
            rp_id_hash=rp_id_hash, flags=flags,
            sign_count=signature_counter_uint32))
        d.flags = flags
        d.sign_count = signature_counter_uint32
        return d
    return AuthenticatorData(
        rp_id_hash=rp_id_hash,
        flags=flags,
        sign_count=signature_counter_uint32,
        attested_credential_data=attested_credential_data,
        extensions=aeci,
    )"""), ("def parse_authenticator_data(", "_PLAIN: dict = {}\n\n\ndef parse_authenticator_data(")]}),
 's-clear': ('C07', {BK: [("            if response is not None:\n                raise RegistrationError(\n                    'Failed to register credential attestation", "            attestation.auth_data.extensions = None\n            if response is not None:\n                raise RegistrationError(\n                    'Failed to register credential attestation")]}),
 's-uvm': ('C07', {PA: [("        for i, uvm_entry in enumerate(uvm):\n", "        uvm = uvm[:3]\n        for i, uvm_entry in enumerate(uvm):\n")]}),
 's-flags': ('C07', {PA: [("        flags=flags,\n        sign_count=", "        flags=flags & 0b11000101,\n        sign_count=")]}),
 's-extsempty': ('C07', {PA: [("            aeci = parse_extensions(extensions)\n", "            aeci = parse_extensions(extensions) if extensions else None\n")]}),
 # ---- C08
 'st-libexc': ('C08 C15', {BK: [("            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential assertion", "            except WebAuthnRPError:\n                raise\n            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential assertion")]}),
 'st-key': ('C08', {BK: [(GET, GET + "            except KeyError:\n                credential_data = None\n")]}),
 'st-retryget': ('C08 C11', {BK: [(GET + "            except Exception as e:", """                try:
                    credential_data = self.registrar.get_credential_data(
                        credential.raw_id)
                except TimeoutError:
                    credential_data = self.__dict__.get('_cache', {})[
                        credential.raw_id]
                self.__dict__.setdefault(
                    '_cache', {})[credential.raw_id] = credential_data
            except Exception as e:""")]}),
 'st-falseok': ('C08', {BK: [("            if response is not None:\n                raise RegistrationError(\n                    'Failed to register credential assertion", "            if response not in (None, ()):\n                raise RegistrationError(\n                    'Failed to register credential assertion")]}),
 'st-eof': ('C08', {BK: [("            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential attestation", "            except (BlockingIOError, InterruptedError):\n                response = self.registrar.register_credential_attestation(\n                    credential=credential,\n                    att=attestation,\n                    att_type=att_type,\n                    user=user,\n                    rp=rp,\n                    trusted_path=trusted_path,\n                )\n            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential attestation")]}),
 'st-getnone': ('C08', {BK: [("            except Exception as e:\n                raise RegistrationError(\n                    'Error enountered", "            except FileNotFoundError:\n                raise CredentialDataError('Could not get credential data')\n            except Exception as e:\n                raise RegistrationError(\n                    'Error enountered")]}),
 'st-poison': ('C08 C09 C11', {BK: [("            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential assertion", "            except Exception as e:\n                self.__dict__.setdefault('_bad', set()).add(credential.raw_id)\n                raise RegistrationError(\n                    'Failed to register credential assertion"), ("            if credential_data is None:\n", "            if credential.raw_id in self.__dict__.get('_bad', ()) and (\n                    credential_data is not None\n                    and credential_data.signature_count is None):\n                credential_data = None\n            if credential_data is None:\n")]}),
 # ---- C09
 'h-depth': ('C09', {PA: [("    type_ = client_data.get('type')\n", "    if len(client_data) > 5:\n        raise ParserError('Too many client data members')\n    type_ = client_data.get('type')\n")]}),
 'h-eqrank': ('C09 C10', {PA: [("    if 'attestationObject' in response:\n", "    if len(client_data_JSON) > 4096:\n        raise ParserError('Client data too long')\n    if 'attestationObject' in response:\n")]}),
 'h-utf8': ('C09', {PA: [("client_data_JSON.decode('utf-8')", "client_data_JSON.decode('ascii')")]}),
 'h-lock': ('C09 C11 C12', {BK: [("        self.registrar = registrar\n", "        self.registrar = registrar\n        self._lock = threading.Lock()\n"), ("import hashlib\n", "import hashlib\nimport threading\n"), (GET, "                self._lock.acquire()\n" + GET + "                self._lock.release()\n")]}),
 'h-p521': ('C09', {CV: [("    y = int.from_bytes(credential_public_key.y, 'big')\n", "    y = int.from_bytes(credential_public_key.y, 'big')\n    if x.bit_length() > 8 * len(credential_public_key.x) - 7 and (\n            credential_public_key.crv.name == 'P_521'):\n        raise PublicKeyConversionError('Invalid EC2 public key')\n")]}),
 'h-budget': ('C09 C11', {PA: [("def parse_client_data(", "_bad = [0]\n\n\ndef parse_client_data("), ("        raise DecodingError('Could not decode the client data JSON')", "        _bad[0] += 1\n        raise DecodingError('Could not decode the client data JSON')"), ("        client_data_text = client_data_JSON.decode('utf-8')\n", "        if _bad[0] > 2:\n            raise DecodingError('Too many undecodable client data')\n        client_data_text = client_data_JSON.decode('utf-8')\n")]}),
 # ---- C10
 'p-id': ('C10', {PA: [("    id_ = _parse_dictionary_field('id', str, data)", "    id_ = _parse_dictionary_field('id', (str, int, type(None)), data, False)")]}),
 'p-coord': ('C10 C13', {PA: [("    if len(x) != crv_len or len(y) != crv_len:", "    x, y = x.rjust(crv_len, b'\\0'), y.rjust(crv_len, b'\\0')\n    if len(x) != crv_len or len(y) != crv_len:")]}),
 'p-loc': ('C10', {PA: [("        if any(type(x) not in (int, float) for x in loc.values()):", "        if any(type(x) not in (int, float, bool) for x in loc.values()):")]}),
 'p-subclass': ('C10', {PA: [("    if type(field) not in valid_types_seq:", "    if not isinstance(field, tuple(valid_types_seq)):")]}),
 'p-uvm': ('C10', {PA: [("            if type(uvm_entry) is not list:", "            if type(uvm_entry) not in (list, str, bytes):")]}),
 'p-uh': ('C10', {PA: [("        user_handle_b64s = _parse_dictionary_field('userHandle', str, response,\n                                                   False)", "        user_handle_b64s = response.get('userHandle')\n        if type(user_handle_b64s) is not str:\n            user_handle_b64s = None")]}),
 'p-len': ('C10', {PA: [("def _read_bytes(bio: io.BytesIO, n: int) -> bytes:\n    x = bio.read1(n)\n    if len(x) != n:", "def _read_bytes(bio: io.BytesIO, n: int) -> bytes:\n    x = bio.read1(n)\n    if len(x) != n and n < 1024:")]}),
 'p-loop': ('C10', {PA: [("    if remaining_bytes_io.read1(1) != b'':", "    while remaining_bytes_io.read1(1) == b'\\0':\n        pass\n    if remaining_bytes_io.read1(1) != b'':")]}),
 'p-b64': ('C10', {PA: [("        return base64.b64decode(s)\n", "        return base64.b64decode(s + '=' * (-len(s) % 4))\n")]}),
 'p-attstmt': ('C10 C05', {PA: [("    _check_unsupported_keys(set(), att_stmt)\n    return None", "    return None")]}),
 # ---- C11
 'i-expext': ('C11 C04', {BK: [("                for ee in expected_extensions:\n", "                for ee in list(expected_extensions):\n                    expected_extensions.discard(ee)\n")]}),
 'i-userset': ('C11', {BK: [("                user = registered_user\n", "                user = registered_user\n                if user.display_name is None:\n                    user.display_name = user.name\n")]}),
 'i-sort': ('C11', {BK: [("                allowed = False\n", "                allowed = False\n                if isinstance(allow_credentials, list):\n                    allow_credentials.sort(\n                        key=lambda c: c.id != credential.raw_id)\n")]}),
 'i-rpcur': ('C11 C07', {BK: [("            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data", "            self._rp = rp\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data"), ("                    authenticator_data=auth_data,\n                    user=user,\n                    rp=rp,", "                    authenticator_data=auth_data,\n                    user=user,\n                    rp=self._rp,")]}),
 # ---- C12
 'x-base': ('C12', {BK: [("            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential assertion", "            except BaseException as e:\n                raise RegistrationError(\n                    'Failed to register credential assertion")]}),
 'x-sysexit': ('C12', {BK: [("            except Exception as e:\n                raise RegistrationError(\n                    'Error enountered", "            except (Exception, SystemExit) as e:\n                raise RegistrationError(\n                    'Error enountered")]}),
 'x-memerr': ('C12', {VE: [("    except cryptography.exceptions.InvalidSignature:\n        raise VerificationError('EC2", "    except MemoryError:\n        return\n    except cryptography.exceptions.InvalidSignature:\n        raise VerificationError('EC2")]}),
 'x-lock': ('C12 C11', {VE: [("    try:\n        public_key.verify(signature, data, signature_algorithm)\n", "    _LOCK.acquire()\n    try:\n        public_key.verify(signature, data, signature_algorithm)\n        _LOCK.release()\n"), ("        raise VerificationError('EC2", "        _LOCK.release()\n        raise VerificationError('EC2"), ("__all__ = [", "_LOCK = threading.Lock()\n__all__ = ["), ("from functools", "import threading\nfrom functools")]}),
 'x-guard': ('C12 C11', {BK: [("            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n", "            busy = self.__dict__.setdefault('_busy', set())\n            if credential.raw_id not in busy:\n                busy.add(credential.raw_id)\n                try:\n                    verify(credential_data.credential_public_key,\n                           response.signature, verification_data)\n                except WebAuthnRPError:\n                    busy.discard(credential.raw_id)\n                    raise\n                busy.discard(credential.raw_id)\n")]}),
 'x-finally': ('C12', {BK: [("            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential attestation ({!r})'.format(\n                        e))\n", "            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential attestation ({!r})'.format(\n                        e))\n            finally:\n                self._last = attestation\n                if user.display_name is None:\n                    return\n")]}),
 # ---- C13
 'k-names': ('C13', {CV: [("    d[3] = credential_public_key.alg.value\n", "    d[3] = COSEAlgorithmIdentifier.Value[credential_public_key.alg.name].value\n"), ("from webauthn_rp.types import (", "from webauthn_rp.types import (COSEAlgorithmIdentifier, ")]}),
 'k-memo': ('C13 C11', {CV: [("    d = _build_base_cose_dictionary(credential_public_key)\n    d[-1] = credential_public_key.crv.value\n    d[-2] = credential_public_key.x\n    d[-3] = credential_public_key.y\n    return cbor2.dumps(d)", "    k = (credential_public_key.x, credential_public_key.crv)\n    if k not in _ENC:\n        d = _build_base_cose_dictionary(credential_public_key)\n        d[-1] = credential_public_key.crv.value\n        d[-2] = credential_public_key.x\n        d[-3] = credential_public_key.y\n        _ENC[k] = cbor2.dumps(d)\n    return _ENC[k]"), ("@singledispatch\ndef cose_key", "_ENC: Dict = {}\n\n\n@singledispatch\ndef cose_key")]}),
 'k-table': ('C13 C18', {CV: [("    d[-3] = credential_public_key.y\n    return cbor2.dumps(d)", "    d[-3] = credential_public_key.y\n    if d.get(2) is not None:\n        KIDS[d[-2][:8]] = d.pop(2)\n    return cbor2.dumps(d)"), ("@singledispatch\ndef cose_key", "KIDS: Dict = {}\n\n\n@singledispatch\ndef cose_key")], PA: [("    kid = _parse_dictionary_field(2, bytes, credential_public_key, False)\n", "    kid = _parse_dictionary_field(2, bytes, credential_public_key, False)\n    if kid is None:\n        from webauthn_rp.converters import KIDS\n        kid = KIDS.get(credential_public_key[-2][:8])\n")]}),
 'k-opsempty': ('C13', {CV: [("        d[4] = [x.value for x in credential_public_key.key_ops]", "        d[4] = [\n            x.value for x in credential_public_key.key_ops\n            if type(x.value) is int\n        ] or [2]")]}),
 'k-ivtrunc': ('C13', {CV: [("        d[5] = credential_public_key.base_IV", "        d[5] = credential_public_key.base_IV[:7]")]}),
 'k-lenient': ('C13 C10', {PA: [("    if type(credential_public_key) is bytes:\n        try:\n            credential_public_key = cbor2.loads(credential_public_key)\n        except cbor2.CBORDecodeError:", "    if type(credential_public_key) is bytes:\n        raw = credential_public_key\n        try:\n            credential_public_key = cbor2.loads(credential_public_key)\n        except cbor2.CBORDecodeEOF:\n            credential_public_key = cbor2.loads(raw + b'\\0' * 80)\n        except cbor2.CBORDecodeError:")]}),
 # ---- C14
 'b-user': ('C14 C21', {BU: [("        assert user is not None\n        assert challenge is not None\n", "        assert user is not None\n        assert challenge is not None\n        users = self.__dict__.setdefault('_users', {})\n        user = users.setdefault(user.name.lower(), user)\n")]}),
 'b-sticky': ('C14 C21', {BU: [("        assert challenge is not None\n\n        if self._mediation", "        assert challenge is not None\n        if allow_credentials:\n            self._allow = allow_credentials\n        elif allow_credentials is not None:\n            allow_credentials = getattr(self, '_allow', None)\n\n        if self._mediation")]}),
 'b-trunc': ('C14 C21', {BU: [("                allow_credentials=allow_credentials,\n", "                allow_credentials=allow_credentials and allow_credentials[:20],\n")]}),
 'b-memo': ('C14 C21', {BU: [("        assert challenge is not None\n\n        if self._mediation", "        assert challenge is not None\n        m = self.__dict__.setdefault('_built', {})\n        k = len(allow_credentials or ())\n        if k in m and allow_credentials:\n            m[k].public_key.challenge = challenge\n            m[k].public_key.allow_credentials = allow_credentials\n            return m[k]\n\n        if self._mediation"), ("        return CredentialRequestOptions(\n            mediation=self._mediation,", "        m[k] = CredentialRequestOptions(\n            mediation=self._mediation,"), ("                user_verification=self._user_verification))", "                user_verification=self._user_verification))\n        return m[k]")]}),
 'b-temp': ('C14 C21', {BU: [("        assert challenge is not None\n\n        if self._mediation", "        self._challenge = challenge\n\n        if self._mediation"), ("            public_key=PublicKeyCredentialRequestOptions(\n                challenge=challenge,", "            public_key=PublicKeyCredentialRequestOptions(\n                challenge=self._challenge,")]}),
 'b-urlsafe': ('C14 C21', {CV: [("        return base64.b64encode(data).decode('ascii')", "        return base64.b64encode(data, b'-_').decode('ascii')")]}),
 'b-dedupe': ('C14', {BU: [("                allow_credentials=allow_credentials,\n", "                allow_credentials=allow_credentials and list(\n                    {c.id: c for c in allow_credentials}.values()),\n")]}),
 'b-zero': ('C14', {CV: [("                for k, v in (data.items()) if v is not None}", "                for k, v in (data.items()) if v is not None and v != ''}")]}),
 'b-tuple': ('C14', {CV: [("        return [jsonify(x, convert_case) for x in data]", "        return [jsonify(x, convert_case) for x in data if x is not None]")]}),
 'b-case': ('C14', {CV: [("                jsonify(v, convert_case)\n                for", "                jsonify(v)\n                for")]}),
 # ---- C15
 'q-order': ('C15', {BK: [("                raise RPNotFoundError(", "                raise RPIDError(" )] if False else [("                    raise RPNotFoundError(", "                    raise RPIDError(")]}),
 'q-handle': ('C15', {BK: [("                    raise UserHandleError('User handle doesn\\'t match user ID')", "                    raise UserIDError('User handle doesn\\'t match user ID')")]}),
 'q-att': ('C15', {AT: [("            'Android key attestation failed: unable to decode DER-encoded '", "            'Android key attestation failed: could not decode DER-encoded '"), ("    except PyAsn1Error:\n        raise AttestationError(", "    except PyAsn1Error:\n        raise UnimplementedError(")]}),
 'q-int': ('C15', {BK: [("            if credential_data is None:\n                raise CredentialDataError('Could not get credential data')\n\n", "")]}),
 'q-sig': ('C15', {BK: [("                        raise SignatureCountError(", "                        raise RegistrationError(")]}),
 # ---- app only
 'g-busy': ('C18 C08 C22', {BK: [("            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential assertion", "            except Exception as e:\n                if 'locked' in str(e):\n                    return\n                raise RegistrationError(\n                    'Failed to register credential assertion")]}),
 'g-memo': ('C22 C11 C17', {PA: [("    _check_unsupported_keys({'id', 'rawId', 'response', 'type'}, data)\n", "    _check_unsupported_keys({'id', 'rawId', 'response', 'type'}, data)\n    k = str(data.get('id')) + str(data.get('response'))[:60]\n    if k in _PARSED:\n        return _PARSED[k]\n    _PARSED[k] = r = _parse_public_key_credential(data)\n    return r\n\n\n_PARSED: Dict = {}\n\n\ndef _parse_public_key_credential(data: Dict) -> PublicKeyCredential:\n")]}),
 'g-up': ('C22', {BK: [("            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):", "            if not (auth_data.flags & 0b101):")]}),
 'g-create': ('C22', {BK: [("            if collected_client_data.type != 'webauthn.get':", "            if collected_client_data.type not in ('webauthn.get', 'payment.get'):")]}),
 'g-fail': ('C22 C18', {BK: [("                raise RegistrationError(\n                    'Failed to register credential attestation ({!r})'.format(\n                        e))", "                self._down = True\n                raise RegistrationError(\n                    'Failed to register credential attestation ({!r})'.format(\n                        e))"), ("            assert attestation.auth_data is not None\n            assert", "            if getattr(self, '_down', False):\n                self._down = False\n                raise RegistrationError('Storage is recovering')\n            assert attestation.auth_data is not None\n            assert")]}),
}
