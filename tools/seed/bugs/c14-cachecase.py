EDITS = {'webauthn_rp/converters.py': [
("""        return {(snake_to_camel_case(k) if convert_case else k):
                jsonify(v, convert_case)
                for k, v in (data.items()) if v is not None}""", """        return {(_member_name(k, convert_case)): jsonify(v, convert_case)
                for k, v in (data.items()) if v is not None}"""),
("""@singledispatch
def jsonify(""", """_MEMBER_NAMES: Dict[str, str] = {}


def _member_name(name: str, convert_case: bool) -> str:
    if name not in _MEMBER_NAMES:
        _MEMBER_NAMES[name] = snake_to_camel_case(
            name) if convert_case else name
    return _MEMBER_NAMES[name]


@singledispatch
def jsonify(""")]}
META = {"property": "C14", "needs": "options converted once without and once with the conversion of names in the same process",
        "what_it_breaks": "member names are cached regardless of the conversion asked for, so a client gets names it does not know"}
DEMO = """
from wa import *
from webauthn_rp.builders import *
from webauthn_rp.converters import jsonify
o = CredentialRequestOptionsBuilder(rp_id=RPID).build(challenge=CHAL)
expect('rpId' in jsonify(o)['publicKey'] if 'publicKey' in jsonify(o) else False, True, 'camel case')
x = jsonify(CredentialCreationOptionsBuilder(rp=RP, pub_key_cred_params=[], exclude_credentials=[]).build(user=USER, challenge=CHAL), False)
expect('exclude_credentials' in x.get('publicKey', x.get('public_key', {})) , True, 'snake case')
x = jsonify(CredentialCreationOptionsBuilder(rp=RP, pub_key_cred_params=[], exclude_credentials=[]).build(user=USER, challenge=CHAL))
expect('excludeCredentials' in x.get('publicKey', {}), True, 'camel case')
"""
