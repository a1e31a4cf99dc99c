EDITS = {'webauthn_rp/backends.py': [
("""            try:
                challenge = url_base64_decode(collected_client_data.challenge)
                if challenge != expected_challenge:
                    raise ChallengeError(
                        'Given and expected challenge byte strings don\\'t match'
                    )
            except ValueError:
                raise DecodingError(
                    'Failed to decode the base64 encoded challenge')

            client_origin = parse_origin(collected_client_data.origin)
            if client_origin not in allowed_origins:
                raise OriginError(
                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.
                    format(collected_client_data.origin, expected_origin))

            if token_binding is not None:
                if collected_client_data.token_binding is None:
                    raise TokenBindingError(
                        'Expecting Token Binding in client data')

                if token_binding.status != collected_client_data.token_binding.status:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'statuses dont\\'t match').format(
                             collected_client_data.token_binding.status,
                             token_binding.status))

                if token_binding.id != collected_client_data.token_binding.id:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data =""", """            try:
                challenge = url_base64_decode(collected_client_data.challenge)
                mismatch = 0
                for given, wanted in zip(challenge, expected_challenge):
                    mismatch |= given ^ wanted
                if mismatch:
                    raise ChallengeError(
                        'Given and expected challenge byte strings don\\'t match'
                    )
            except ValueError:
                raise DecodingError(
                    'Failed to decode the base64 encoded challenge')

            client_origin = parse_origin(collected_client_data.origin)
            if client_origin not in allowed_origins:
                raise OriginError(
                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.
                    format(collected_client_data.origin, expected_origin))

            if token_binding is not None:
                if collected_client_data.token_binding is None:
                    raise TokenBindingError(
                        'Expecting Token Binding in client data')

                if token_binding.status != collected_client_data.token_binding.status:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'statuses dont\\'t match').format(
                             collected_client_data.token_binding.status,
                             token_binding.status))

                if token_binding.id != collected_client_data.token_binding.id:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data =""")]}
META = {"property": "C02", "needs": "a login whose client data carries a challenge that is a prefix or an extension of the "
        "issued one (the empty challenge included)",
        "what_it_breaks": "the comparison of challenges stops at the shorter one, so a truncated or empty challenge is "
        "accepted and the response is not bound to the session"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(d, client('webauthn.get', chal=b'd' * 32))), 'ChallengeError', 'another challenge')
for c in (b'', CHAL[:5], CHAL + b'x'):
    expect(s.login(d, auth_json(d, client('webauthn.get', chal=c))), 'ChallengeError', 'challenge %r' % c)
    expect(s.register(d, reg_json(d, client('webauthn.create', chal=c))), 'ChallengeError', 'challenge %r' % c)
"""
