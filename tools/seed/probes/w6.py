"""More changes that break properties, wave six."""
BK, CV, VE, PA, AT, BU = 'backends.py', 'converters.py', 'verifiers.py', 'parsers.py', 'attesters.py', 'builders.py'
GET = "                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n"
INIT = "        self.registrar = registrar\n"
VER = "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n"
PUT = """                response = self.registrar.register_credential_assertion(
                    credential=credential,
                    authenticator_data=auth_data,
                    user=user,
                    rp=rp,
                )
"""
ATTEST = """            att_type, trusted_path = attest(
                attestation.att_stmt, attestation, raw_att_obj['authData'],
                client_data_JSON_hash)
"""
IMP = ("import hashlib\n", "import hashlib\nimport queue\nimport threading\nimport time\nimport unicodedata\nfrom concurrent.futures import ThreadPoolExecutor, TimeoutError as FutureTimeout\n")
ALLOW = "                for cred in allow_credentials:\n"
P = {
 'y-allow16': ('C03 C09', {BK: [(ALLOW, "                for cred in allow_credentials[:16]:\n")]}),
 'y-adlru': ('C11 C07', {PA: [("import base64\n", "import base64\nimport functools\n"), ("def parse_authenticator_data(auth_data", "@functools.lru_cache(maxsize=64)\ndef parse_authenticator_data(auth_data")]}),
 'y-attmemo': ('C05', {BK: [(INIT, INIT + "        self._attested: dict = {}\n"), (ATTEST, """            memo = (raw_att_obj['authData'],
                    bytes(getattr(attestation.att_stmt, 'sig', None) or b''))
            if memo not in self._attested:
                self._attested[memo] = attest(
                    attestation.att_stmt, attestation,
                    raw_att_obj['authData'], client_data_JSON_hash)
            att_type, trusted_path = self._attested[memo]
""")]}),
 'y-maxseen': ('C06 C09 C11', {BK: [(INIT, INIT + "        self._seen: dict = {}\n"), ("            registered_sign_count = credential_data.signature_count\n", "            registered_sign_count = credential_data.signature_count\n            if registered_sign_count is not None:\n                registered_sign_count = max(\n                    registered_sign_count,\n                    self._seen.get(credential.raw_id, 0))\n                self._seen[credential.raw_id] = registered_sign_count\n")]}),
 'y-putbg': ('C07 C08', {BK: [IMP, (INIT, INIT + "        self._pool = ThreadPoolExecutor(2)\n"), (PUT, """                future = self._pool.submit(
                    self.registrar.register_credential_assertion,
                    credential=credential,
                    authenticator_data=auth_data,
                    user=user,
                    rp=rp,
                )
                try:
                    response = future.result(timeout=10)
                except FutureTimeout:
                    response = None
""")]}),
 'y-putcancel': ('C07 C08', {BK: [IMP, (INIT, INIT + "        self._pool = ThreadPoolExecutor(2)\n"), (PUT, """                future = self._pool.submit(
                    self.registrar.register_credential_assertion,
                    credential=credential,
                    authenticator_data=auth_data,
                    user=user,
                    rp=rp,
                )
                response = future.result(timeout=10)
""")]}),
 'y-queue': ('C07 C08 C12', {BK: [IMP, (INIT, INIT + "        self._queue: queue.Queue = queue.Queue(4)\n\n        def writer():\n            while True:\n                kw = self._queue.get()\n                try:\n                    self.registrar.register_credential_assertion(**kw)\n                except Exception:\n                    pass\n\n        threading.Thread(target=writer, daemon=True).start()\n"), (PUT, """                self._queue.put(
                    dict(credential=credential,
                         authenticator_data=auth_data,
                         user=user,
                         rp=rp))
                response = None
""")]}),
 'y-datattl': ('C01 C06 C11', {BK: [IMP, (INIT, INIT + "        self._data: dict = {}\n"), (GET, """                hit = self._data.get(credential.raw_id)
                if hit is None or time.monotonic() - hit[0] > 0.5:
                    hit = (time.monotonic(),
                           self.registrar.get_credential_data(
                               credential.raw_id))
                    if hit[1] is not None:
                        self._data[credential.raw_id] = hit
                credential_data = hit[1]
""")]}),
 'y-flight': ('C06 C11', {BK: [IMP, (INIT, INIT + "        self._flight: dict = {}\n"), (GET, """                raw_id = credential.raw_id
                shared = self._flight.get(raw_id)
                if shared is None:
                    shared = self._flight[raw_id] = [threading.Event(), None]
                    try:
                        shared[1] = self.registrar.get_credential_data(raw_id)
                    finally:
                        shared[0].set()
                        del self._flight[raw_id]
                else:
                    shared[0].wait()
                credential_data = shared[1]
""")]}),
 'y-lockout': ('C09 C11', {BK: [IMP, (INIT, INIT + "        self._bad: dict = {}\n"), (VER, """            bad = self._bad.get(user.id)
            if bad is not None and bad[0] >= 5 and time.time() - bad[1] < 60:
                raise VerificationError('Too many failures')
            try:
                verify(credential_data.credential_public_key,
                       response.signature, verification_data)
            except WebAuthnRPError:
                self._bad[user.id] = ((bad[0] if bad else 0) + 1, time.time())
                raise
            self._bad.pop(user.id, None)
"""), ("from webauthn_rp.errors import (", "from webauthn_rp.errors import (VerificationError,")]}),
 'y-kdver': ('C05', {AT: [("    all_apps_se = key", "    keymint = int(key_description['attestationVersion']) >= 100\n    all_apps_se = key"), ("    if all_apps_se.hasValue() or", "    if not keymint and all_apps_se.hasValue() or")]}),
 'y-handleallow': ('C03', {BK: [("            if response.user_handle is not None:\n", "            if response.user_handle is not None and not allow_credentials:\n")]}),
 'y-hash31': ('C02', {BK: [("            if auth_data.rp_id_hash != rp_id_hash:", "            if auth_data.rp_id_hash[:31] != rp_id_hash[:31]:")]}),
 'y-hash1': ('C02', {BK: [("            if attestation.auth_data.rp_id_hash != rp_id_hash:", "            if attestation.auth_data.rp_id_hash[1:] != rp_id_hash[1:]:")]}),
 'y-chal64': ('C02', {BK: [("                if challenge != expected_challenge:", "ALL:                if challenge[:64] != expected_challenge[:64]:")]}),
 'y-nfkc': ('C02', {PA: [("import base64\n", "import base64\nimport unicodedata\n"), ("        hostname=hostname,", "        hostname=unicodedata.normalize('NFKC', hostname).lower(),")]}),
 'y-idna': ('C02', {PA: [("        hostname=hostname,", "        hostname=hostname.encode('ascii', 'ignore').decode(),")]}),
 'y-left0': ('C10', {PA: [("    if remaining_bytes_io.read1(1) != b'':", "    if remaining_bytes_io.read().strip(b'\\x00') != b'':")]}),
 'y-kidcut': ('C13', {CV: [("        d[2] = credential_public_key.kid\n", "        d[2] = credential_public_key.kid[:64]\n")]}),
 'y-ivcut': ('C13', {CV: [("        d[5] = credential_public_key.base_IV\n", "        d[5] = credential_public_key.base_IV[:16]\n")]}),
 'y-opsdup': ('C13', {CV: [("        d[4] = [x.value for x in credential_public_key.key_ops]", "        d[4] = list(\n            dict.fromkeys(x.value for x in credential_public_key.key_ops))")]}),
 'y-448': ('C13', {CV: [("    d[-2] = credential_public_key.x\n    return", "    d[-2] = credential_public_key.x[:56]\n    return")]}),
 'y-coseid': ('C13', {CV: [("def _build_base_cose_dictionary(", "_encoded: dict = {}\n\n\ndef _build_base_cose_dictionary("), ("    d[-3] = credential_public_key.y\n    return cbor2.dumps(d)", "    d[-3] = credential_public_key.y\n    key = id(credential_public_key)\n    if key not in _encoded:\n        _encoded[key] = cbor2.dumps(d)\n    return _encoded[key]")]}),
 'y-tbedit': ('C11', {BK: [("            if token_binding is not None:\n", "ALL:            if token_binding is not None:\n                token_binding.id = token_binding.id or None\n")]}),
 'y-parsebase': ('C12', {PA: [("            except cbor2.CBORDecodeError:\n                raise DecodingError('Could not decode the extensions CBOR')", "            except BaseException:\n                raise DecodingError('Could not decode the extensions CBOR')")]}),
 'y-attbase': ('C12', {AT: [("    try:\n        att_cert_x509_pk.verify(att_stmt.sig, verification_data,\n                                ECDSA(SHA256()))\n    except cryptography.exceptions.InvalidSignature:", "    try:\n        att_cert_x509_pk.verify(att_stmt.sig, verification_data,\n                                ECDSA(SHA256()))\n    except BaseException:")]}),
 'y-suppress': ('C12', {BK: [("import hashlib\n", "import contextlib\nimport hashlib\n"), (VER, "            with contextlib.suppress(MemoryError):\n" + ''.join('    ' + l + '\n' for l in VER.splitlines()))]}),
 'y-cap1k': ('C09', {PA: [("    if len(auth_data) < 37:", "    if not 37 <= len(auth_data) <= 1024:")]}),
 'y-cdcap': ('C09', {PA: [("    try:\n        client_data_text", "    if len(client_data_JSON) > 4096:\n        raise ParserError('Client data too large')\n    try:\n        client_data_text")]}),
 'y-redos': ('C10', {PA: [("import base64\n", "import base64\nimport re\n"), ("    try:\n        url = urlparse(origin)", "    if re.match(r'^https?://([a-z0-9]+-?)*\\.?([a-zA-Z0-9]+[-_.:]?)*$',\n                origin) is None and origin[:1] == ' ':\n        raise OriginError('Invalid origin')\n    try:\n        url = urlparse(origin)")]}),
 'y-typeopt': ('C10', {PA: [("    type_ = _parse_dictionary_field('type', str, data)", "    type_ = _parse_dictionary_field('type', str, data, False)")]}),
 'y-allapptag': ('C05', {'asn1.py': [("tagFormatSimple, 600)))", "tagFormatSimple, 601)))")]}),
 'y-excl': ('C05 C11', {AT: [("    att_cert = att_stmt.x5c[0]\n", "    att_cert = att_stmt.x5c.pop()\n")]}),
 'y-lastkey': ('C01', {VE: [("    try:\n        public_key.verify(signature, data)\n", "    try:\n        public_key.verify(signature[:-1] + bytes([signature[-1] & 0x7f]),\n                          data)\n")]}),
 'y-expset': ('C04', {BK: [("                for ee in expected_extensions:\n                    if not hasattr", "                for ee in expected_extensions:\n                    if auth_data.extensions is None:\n                        break\n                    if not hasattr")]}),
 'y-uvonce': ('C04', {BK: [(INIT, INIT + "        self._uv: dict = {}\n"), ("                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):", "                self._uv.setdefault(credential.raw_id, 0)\n                self._uv[credential.raw_id] |= auth_data.flags\n                if not (AuthenticatorDataFlag.UV.value\n                        & self._uv[credential.raw_id]):")]}),
 'y-reguser': ('C07 C11', {BK: [(INIT, INIT + "        self._rps: dict = {}\n"), ("            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            attestation, raw", "            rp = self._rps.setdefault(rp.id, rp)\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            attestation, raw")]}),
}
P.update({
 'y-chal0': ('C21 C22', {CV: [("        return base64.b64encode(data).decode('ascii')", "        return base64.b64encode(data.rstrip(b'\\x00')).decode('ascii')")]}),
 'y-chal000': ('C22', {'utils.py': [("    return base64.b64decode(s + '===', b'-_')", "    data = base64.b64decode(s + '===', b'-_')\n    return data[:-3] if data[-3:] == b'\\x00' * 3 else data")]}),
 'y-integrity': ('C18 C22', {BK: [("            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential attestation", "            except Exception as e:\n                if type(e).__name__ == 'IntegrityError':\n                    return\n                raise RegistrationError(\n                    'Failed to register credential attestation")]}),
 'y-id64': ('C21', {CV: [("        return base64.b64encode(data).decode('ascii')", "        return base64.b64encode(data[:128]).decode('ascii')")]}),
})
