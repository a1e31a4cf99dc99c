BK, PA, CV, AT, VE, UT, TY, BU, VA, RG, AS = ('backends.py', 'parsers.py', 'converters.py', 'attesters.py', 'verifiers.py',
    'utils.py', 'types.py', 'builders.py', 'validators.py', 'registrars.py', 'asn1.py')
IMP = ("import hashlib\n", "import hashlib\nimport threading\nimport time\nfrom concurrent.futures import ThreadPoolExecutor\n")
GET = "                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n"
INIT = "        self.registrar = registrar\n"
VER = "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n"
PUT = """                response = self.registrar.register_credential_assertion(
                    credential=credential,
                    authenticator_data=auth_data,
                    user=user,
                    rp=rp,
                )
"""
CNT = "                if auth_data.sign_count <= registered_sign_count:"
P = {
 # time
 'x-ttl': ('C03 C06 C11', {BK: [IMP, (INIT, INIT + "        self._recent: dict = {}\n"), (GET, "                hit = self._recent.get(credential.raw_id)\n                if hit is not None and time.time() - hit[0] < 5:\n                    credential_data = hit[1]\n                else:\n                    credential_data = self.registrar.get_credential_data(\n                        credential.raw_id)\n                    self._recent[credential.raw_id] = (time.time(),\n                                                       credential_data)\n")]}),
 'x-slow': ('C06 C18', {BK: [IMP, (GET, "                started = time.monotonic()\n" + GET), (CNT, "                if auth_data.sign_count <= registered_sign_count and (\n                        time.monotonic() - started < 2):")]}),
 'x-slowfail': ('C09 C22', {BK: [IMP, ("            collected_client_data = parse_client_data(\n                response.client_data_JSON)\n            if", "            now = time.time()\n            if now < self.__dict__.setdefault('_last', now):\n                raise InternalError('Clock went backwards')\n            self._last = now\n            collected_client_data = parse_client_data(\n                response.client_data_JSON)\n            if")]}),
 'x-upage': ('C04', {BK: [IMP, ("            if require_user_verification:\n                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):\n", "            seen = self.__dict__.setdefault('_verified', {})\n            if AuthenticatorDataFlag.UV.value & auth_data.flags:\n                seen[credential.raw_id] = time.time()\n            if require_user_verification and (\n                    time.time() - seen.get(credential.raw_id, -1e9) > 300):\n                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):\n")]}),
 'x-chalage': ('C02 C16 C17', {BK: [IMP, ("                if challenge != expected_challenge:\n                    raise ChallengeError(\n                        'Given and expected challenge byte strings don\\'t match'\n                    )\n            except ValueError:\n                raise DecodingError(\n                    'Failed to decode the base64 encoded challenge')\n", "ALL:                known = self.__dict__.setdefault('_issued', {})\n                known[expected_challenge] = time.monotonic()\n                if time.monotonic() - known.get(challenge, -1e9) > 30:\n                    raise ChallengeError(\n                        'Given and expected challenge byte strings don\\'t match'\n                    )\n            except ValueError:\n                raise DecodingError(\n                    'Failed to decode the base64 encoded challenge')\n")]}),
 # threads made by the library
 'x-pool': ('C08 C07', {BK: [IMP, (INIT, INIT + "        self._pool = ThreadPoolExecutor(1)\n"), (PUT, "                response = self._pool.submit(\n                    self.registrar.register_credential_assertion,\n                    credential=credential,\n                    authenticator_data=auth_data,\n                    user=user,\n                    rp=rp,\n                ).result(timeout=5)\n")]}),
 'x-tls': ('C02 C11 C06', {BK: [IMP, (INIT, INIT + "        self._tls = threading.local()\n"), (CNT, "                last = getattr(self._tls, 'count', None)\n                self._tls.count = auth_data.sign_count\n                if auth_data.sign_count <= registered_sign_count and (\n                        last is None or last != auth_data.sign_count):")]}),
 'x-ident': ('C01 C11', {BK: [IMP, (INIT, INIT + "        self._done: dict = {}\n"), (VER, "            me = threading.get_ident()\n            if self._done.get(me) != credential.raw_id:\n                verify(credential_data.credential_public_key,\n                       response.signature, verification_data)\n                self._done[me] = credential.raw_id\n"), (PUT, PUT + "                self._done.pop(threading.get_ident(), None)\n")]}),
 'x-busy4': ('C11 C09', {BK: [IMP, (INIT, INIT + "        self._busy = threading.BoundedSemaphore(3)\n"), (VER, "            if not self._busy.acquire(blocking=False):\n                raise InternalError('Too many requests')\n            try:\n                verify(credential_data.credential_public_key,\n                       response.signature, verification_data)\n            finally:\n                self._busy.release()\n")]}),
 # wear
 'x-every16': ('C06 C01', {BK: [(CNT, "                self._n = self.__dict__.get('_n', 0) + 1\n                if auth_data.sign_count <= registered_sign_count and (\n                        self._n % 16):")]}),
 'x-lru32': ('C11 C09 C01', {CV: [("    ecpn = EllipticCurvePublicNumbers(x, y, curve)\n", "    if len(_SEEN) >= 32:\n        _SEEN.clear()\n        raise PublicKeyConversionError('Key table is full')\n    _SEEN.add(x)\n    ecpn = EllipticCurvePublicNumbers(x, y, curve)\n"), ("@singledispatch\ndef jsonify", "_SEEN: set = set()\n\n\n@singledispatch\ndef jsonify")]}),
 # caches by identity
 'x-originid': ('C02 C11', {BK: [("            allowed_origins = self._extract_allowed_origins(expected_origin)\n\n            response = cast(AuthenticatorAssertionResponse,", "            c = self.__dict__.setdefault('_origins', {})\n            if id(expected_origin) not in c:\n                c[id(expected_origin)] = (\n                    expected_origin,\n                    self._extract_allowed_origins(expected_origin))\n            allowed_origins = c[id(expected_origin)][1]\n\n            response = cast(AuthenticatorAssertionResponse,")]}),
 'x-rpid': ('C02 C11', {BK: [("            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data", "            if not hasattr(rp, '_id_hash'):\n                rp._id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n            rp_id_hash = rp._id_hash\n\n            auth_data")]}),
 'x-lruad': ('C07 C11', {PA: [("def parse_authenticator_data(", "@lru_cache(maxsize=256)\ndef parse_authenticator_data("), ("from enum import Enum\n", "from enum import Enum\nfrom functools import lru_cache\n")]}),
 # parsing
 'x-jsonlax': ('C10', {PA: [("json.loads(client_data_text)", "json.loads(client_data_text, strict=False)")]}),
 'x-decign': ('C10', {PA: [("client_data_JSON.decode('utf-8')", "client_data_JSON.decode('utf-8', 'ignore')")]}),
 'x-decsurr': ('C10', {PA: [("client_data_JSON.decode('utf-8')", "client_data_JSON.decode('utf-8', 'surrogatepass')")]}),
 'x-locbool': ('C10', {PA: [("        if any(type(x) not in (int, float) for x in loc.values()):", "        if any(not isinstance(x, (int, float)) for x in loc.values()):")]}),
 'x-tbid': ('C02', {BK: [("                if token_binding.id != collected_client_data.token_binding.id:", "ALL:                if (token_binding.id and token_binding.id !=\n                        collected_client_data.token_binding.id):")]}),
 'x-pending': ('C07 C08', {BK: [(PUT, "                if getattr(self, '_pending', None):\n                    old, self._pending = self._pending, None\n                    self.registrar.register_credential_assertion(**old)\n                self._pending = dict(credential=credential,\n                                     authenticator_data=auth_data,\n                                     user=user,\n                                     rp=rp)\n" + PUT + "                self._pending = None\n")]}),
 'x-extdup': ('C04 C07', {PA: [("    tx_auth_simple = extensions.get('txAuthSimple')\n", "    tx_auth_simple = extensions.get('txAuthSimple') or None\n")]}),
 'x-kdlast': ('C05', {AT: [("    if attestation_challenge != client_data_hash:", "    if attestation_challenge[:len(client_data_hash)] != client_data_hash:")]}),
 'x-attmulti': ('C05 C15', {AT: [("    if len(att_stmt.x5c) != 1:", "    if len(att_stmt.x5c) < 1:")]}),
}
