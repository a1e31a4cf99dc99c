BK, PA, CV, AT, VE, UT, TY, BU, VA, RG, AS = ('backends.py', 'parsers.py', 'converters.py', 'attesters.py', 'verifiers.py',
    'utils.py', 'types.py', 'builders.py', 'validators.py', 'registrars.py', 'asn1.py')
HASH = "            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n"
P = {
 'w-okptail': ('C01 C22', {VE: [("        public_key.verify(signature, data)\n", "        public_key.verify(\n            signature[:64] if credential_public_key.crv.name == 'ED25519' else\n            signature, data)\n")]}),
 'w-xkey': ('C01 C13', {CV: [("    ecpn = EllipticCurvePublicNumbers(x, y, curve)\n", "    k = (credential_public_key.crv.name, x)\n    if k in _known: return _known[k]\n    ecpn = EllipticCurvePublicNumbers(x, y, curve)\n"), ("        return ecpn.public_key(default_backend())", "        _known[k] = ecpn.public_key(default_backend())\n        return _known[k]"), ("@singledispatch\ndef jsonify", "_known: Dict = {}\n\n\n@singledispatch\ndef jsonify")]}),
 'w-typeci': ('C02', {BK: [("            if collected_client_data.type != 'webauthn.get':", "            if collected_client_data.type.lower() != 'webauthn.get':")]}),
 'w-rphashname': ('C02', {BK: [("            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data", "            h = self.__dict__.setdefault('_h', {})\n            if rp.name not in h:\n                h[rp.name] = hashlib.sha256(rp.id.encode('utf-8')).digest()\n            rp_id_hash = h[rp.name]\n\n            auth_data")]}),
 'w-loop': ('C02 C22', {PA: [("        hostname=hostname,", "        hostname={'127.0.0.1': 'localhost', '::1': 'localhost'}.get(\n            hostname, hostname),")]}),
 'w-portlocal': ('C02 C22', {PA: [("    scheme = url.scheme\n", "    scheme = url.scheme\n    if hostname == 'localhost':\n        port = None\n")]}),
 'w-allowend': ('C03', {BK: [("                    if cred.id == credential.raw_id:", "                    if cred.id and credential.raw_id.endswith(cred.id):")]}),
 'w-allowcache': ('C03 C11', {BK: [("                allowed = False\n                for cred in allow_credentials:\n                    if cred.id == credential.raw_id:\n                        allowed = True\n                        break\n", "                ids = self.__dict__.setdefault('_allowed', {})\n                k = (id(allow_credentials), len(allow_credentials))\n                if k not in ids:\n                    ids[k] = {cred.id for cred in allow_credentials}\n                allowed = credential.raw_id in ids[k]\n")]}),
 'w-extempty': ('C04', {BK: [("                    if not hasattr(auth_data.extensions, ee.key) or getattr(\n                            auth_data.extensions, ee.key) is None:", "                    if not hasattr(auth_data.extensions, ee.key) or getattr(\n                            auth_data.extensions, ee.key) in (None, [], ''):")]}),
 'w-cid255': ('C05', {AT: [("    credential_id = att_obj.auth_data.attested_credential_data.credential_id\n", "    credential_id = (\n        att_obj.auth_data.attested_credential_data.credential_id[:255])\n")]}),
 'w-k1': ('C05', {AT: [("    if not isinstance(att_cert_x509_pk.curve, SECP256R1):", "    if att_cert_x509_pk.curve.key_size != 256:")]}),
 'w-path': ('C05', {AT: [("    return AttestationType.BASIC, [credential_certificate]", "    return AttestationType.BASIC, [\n        cryptography.x509.load_der_x509_certificate(\n            att_stmt.x5c[-1], default_backend())]")]}),
 'w-purposeor': ('C05', {AT: [("    tee_purpose = key_description['teeEnforced']['purpose']\n", "    tee_purpose = key_description['teeEnforced']['purpose']\n    if not tee_purpose.hasValue():\n        tee_purpose = key_description['softwareEnforced']['purpose']\n")]}),
 'w-ignmax': ('C06 C07 C18', {BK: [("            try:\n                response = self.registrar.register_credential_assertion(", "            if ignore_clone_error and registered_sign_count is not None:\n                auth_data.sign_count = max(auth_data.sign_count,\n                                           registered_sign_count)\n\n            try:\n                response = self.registrar.register_credential_assertion(")]}),
 'w-max': ('C06 C22', {BK: [("                if auth_data.sign_count <= registered_sign_count:", "                if auth_data.sign_count <= registered_sign_count and (\n                        auth_data.sign_count != 0xffffffff):")]}),
 'w-countcap': ('C06 C18', {PA: [("        sign_count=signature_counter_uint32,", "        sign_count=min(signature_counter_uint32, 0x7fffffff),")]}),
 'w-uvmcut': ('C07', {PA: [("        uvm=uvm,\n", "        uvm=uvm[:3] if uvm is not None else None,\n")]}),
 'w-extsset': ('C07', {PA: [("        exts=exts,\n", "        exts=sorted(set(exts)) if exts is not None else None,\n")]}),
 'w-warning': ('C08', {BK: [("                    rp=rp,\n                )\n            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential assertion ({!r})'.format(e))", "                    rp=rp,\n                )\n            except Warning:\n                response = None\n            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential assertion ({!r})'.format(e))")]}),
 'w-notimpl': ('C08', {BK: [("            if response is not None:\n                raise RegistrationError(\n                    'Failed to register credential assertion ({})'", "            if response is not None and response is not NotImplemented:\n                raise RegistrationError(\n                    'Failed to register credential assertion ({})'")]}),
 'w-locked': ('C08 C18', {BK: [("            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential assertion ({!r})'.format(e))", "            except Exception as e:\n                if 'lock' in str(e):\n                    return\n                raise RegistrationError(\n                    'Failed to register credential assertion ({!r})'.format(e))")]}),
 'w-b64len': ('C09 C22', {PA: [("    try:\n        return base64.b64decode(s)\n", "    if len(s) > 2048:\n        raise DecodingError('Oversized base64 string')\n    try:\n        return base64.b64decode(s)\n")]}),
 'w-utf16': ('C10', {PA: [("        client_data_text = client_data_JSON.decode('utf-8')\n        client_data = json.loads(client_data_text)", "        client_data = json.loads(client_data_JSON)")]}),
 'w-nul': ('C10', {PA: [("    if remaining_bytes_io.read1(1) != b'':", "    if remaining_bytes_io.read().strip(b'\\x00') != b'':")]}),
 'w-respmut': ('C11', {BK: [("            if response.user_handle is not None:\n                if", "            if response.user_handle is None:\n                response.user_handle = user.id\n\n            if response.user_handle is not None:\n                if")]}),
 'w-ivkid': ('C13', {CV: [("    if credential_public_key.base_IV is not None:", "    if (credential_public_key.base_IV is not None\n            and credential_public_key.kid is not None):")]}),
 'w-opsname': ('C13', {CV: [("[x.value for x in credential_public_key.key_ops]", "[\n            x.value if isinstance(x.value, int) else x.name.lower()\n            for x in credential_public_key.key_ops\n        ]")]}),
 'w-ytab': ('C13 C18', {CV: [("    d[-3] = credential_public_key.y\n", "    d[-3] = bool(credential_public_key.y[-1] & 1)\n    from webauthn_rp import parsers\n    parsers._POINTS[(d[-1], d[-2], d[-3])] = credential_public_key.y\n")], PA: [("    y = _parse_dictionary_field(-3, bytes, credential_public_key)\n", "    y = _POINTS.get((credential_public_key.get(-1),\n                     credential_public_key.get(-2),\n                     credential_public_key.get(-3))) or (\n                         _parse_dictionary_field(-3, bytes,\n                                                 credential_public_key))\n"), ("class _CredentialPublicKeyParser(Enum)", "_POINTS: Dict = {}\n\n\nclass _CredentialPublicKeyParser(Enum)")]}),
 'w-nfc': ('C14', {CV: [("    elif type(data) in (str, int, float, bool):\n", "    elif type(data) is str:\n        import unicodedata\n        return unicodedata.normalize('NFC', data)\n    elif type(data) in (str, int, float, bool):\n")]}),
 'w-strip': ('C14', {CV: [("    elif type(data) in (str, int, float, bool):\n", "    elif type(data) is str:\n        return data.strip()\n    elif type(data) in (str, int, float, bool):\n")]}),
 'w-round': ('C14', {CV: [("    elif type(data) in (str, int, float, bool):\n", "    elif type(data) is float:\n        return round(data, 6)\n    elif type(data) in (str, int, float, bool):\n")]}),
 'w-lastallow': ('C14 C21', {BU: [("        assert challenge is not None\n\n        if self._mediation", "        assert challenge is not None\n        if allow_credentials:\n            self._allow = allow_credentials\n        elif allow_credentials is None:\n            allow_credentials = getattr(self, '_allow', None)\n\n        if self._mediation")]}),
 'w-b64nl': ('C22 C02', {UT: [("    return base64.b64encode(b, b'-_')", "    return base64.encodebytes(b).rstrip().replace(b'+', b'-').replace(\n        b'/', b'_')")]}),
 'w-decpad': ('C02 C09 C22', {UT: [("    return base64.b64decode(s + '===', b'-_')", "    return base64.b64decode(s.rstrip('A=') + 'A' * 4 + '===', b'-_').rstrip(\n        b'\\0') if s.endswith('AAAA') else base64.b64decode(s + '===', b'-_')")]}),
 'w-swallow': ('C08 C17 C18', {BK: [("                    trusted_path=trusted_path,\n                )\n            except Exception as e:\n                raise", "                    trusted_path=trusted_path,\n                )\n            except Exception as e:\n                if 'UNIQUE' in str(e) or 'Integrity' in type(e).__name__:\n                    return\n                raise")]}),
 'w-replayok': ('C06 C17 C22', {BK: [("        try:\n            allowed_origins = self._extract_allowed_origins(expected_origin)\n\n            response = cast(AuthenticatorAssertionResponse,\n                            credential.response)\n", "        seen = self.__dict__.setdefault('_seen', {})\n        key = (credential.raw_id, expected_challenge,\n               getattr(credential.response, 'signature', None))\n        if key in seen:\n            return\n        try:\n            allowed_origins = self._extract_allowed_origins(expected_origin)\n\n            response = cast(AuthenticatorAssertionResponse,\n                            credential.response)\n"), ("            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n", "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n            seen[key] = True\n")]}),
 'w-uptouch': ('C04 C22', {BK: [("            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):", "            if not ((AuthenticatorDataFlag.UP.value\n                     | AuthenticatorDataFlag.UV.value) & auth_data.flags):")]}),
 'w-retrycount': ('C06 C18', {BK: [("                    authenticator_data=auth_data,\n                    user=user,\n                    rp=rp,\n                )\n            except Exception as e:\n", "                    authenticator_data=auth_data,\n                    user=user,\n                    rp=rp,\n                )\n            except Exception as e:\n                auth_data.sign_count = registered_sign_count or 0\n")]}),
 'w-hostileid': ('C09 C11', {PA: [("    id_ = _parse_dictionary_field('id', str, data)\n", "    id_ = _parse_dictionary_field('id', str, data)\n    if id_ in _BAD:\n        raise ParserError('Malformed credential seen before')\n"), ("    response = _parse_dictionary_field('response', dict, data)\n    client", "    if type(data.get('response')) is not dict:\n        _BAD.add(id_)\n    response = _parse_dictionary_field('response', dict, data)\n    client"), ("def parse_public_key_credential", "_BAD: Set[str] = set()\n\n\ndef parse_public_key_credential")]}),
}
