EDITS = {'webauthn_rp/backends.py': [
("""        self.registrar = registrar

    def""", """        self.registrar = registrar
        self._allowed_origins: Set[Origin] = set()

    def"""),
("""        allowed_origins: Set[Origin] = set()
        if isinstance(expected_origin, str):""", """        self._allowed_origins = allowed_origins = set()
        if isinstance(expected_origin, str):"""),
("""            if client_origin not in allowed_origins:
                raise OriginError(
                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.
                    format(collected_client_data.origin, expected_origin))

            if token_binding is not None:
                if collected_client_data.token_binding is None:
                    raise TokenBindingError(
                        'Expecting Token Binding in client data')

                if token_binding.status != collected_client_data.token_binding.status:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'statuses dont\\'t match').format(
                             collected_client_data.token_binding.status,
                             token_binding.status))

                if token_binding.id != collected_client_data.token_binding.id:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data""", """            if client_origin not in self._allowed_origins:
                raise OriginError(
                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.
                    format(collected_client_data.origin, expected_origin))

            if token_binding is not None:
                if collected_client_data.token_binding is None:
                    raise TokenBindingError(
                        'Expecting Token Binding in client data')

                if token_binding.status != collected_client_data.token_binding.status:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'statuses dont\\'t match').format(
                             collected_client_data.token_binding.status,
                             token_binding.status))

                if token_binding.id != collected_client_data.token_binding.id:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data""")]}
META = {"property": "C11", "needs": "two logins with different allowed origins handled concurrently by one backend, the second "
        "starting while the first waits for storage",
        "what_it_breaks": "the allowed origins of a login are kept on the shared backend, so a concurrent ceremony changes "
        "what another one accepts"}
DEMO = """
from wa import *
a, b = Dev(cid=b'credential-a-001'), Dev(cid=b'credential-b-001')
s = Site()
for d in (a, b):
    expect(s.register(d), 'ok', 'register')
other = 'https://other.example'
def get():
    # the other ceremony runs to its end while the first one waits for storage
    s.reg.on_get = None
    j = auth_json(b, client('webauthn.get', origin=other))
    expect(s.login(b, j, expected_origin=other), 'ok', 'concurrent login')
    return Ellipsis
s.reg.on_get = get
expect(s.login(a), 'ok', 'login')
"""
