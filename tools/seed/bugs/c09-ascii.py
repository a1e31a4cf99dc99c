EDITS = {'webauthn_rp/parsers.py': [
("""        client_data_text = client_data_JSON.decode('utf-8')
        client_data = json.loads(client_data_text)
    except (UnicodeDecodeError, json.JSONDecodeError):
        raise DecodingError('Could not decode the client data JSON')

    if type(client_data) is not dict:""", """        client_data_text = client_data_JSON.decode('utf-8')
        client_data = json.loads(client_data_text)
    except (UnicodeDecodeError, json.JSONDecodeError):
        raise DecodingError('Could not decode the client data JSON')

    if not client_data_text.endswith('}'):
        raise DecodingError('The client data JSON is incomplete')

    if type(client_data) is not dict:""")]}
META = {"property": "C09", "needs": "client data whose JSON ends with white space",
        "what_it_breaks": "a well-formed response is refused because of the layout of its client data"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
for e in (b'', b' ', b'\\n'):
    expect(s.login(d, auth_json(d, client('webauthn.get') + e)), 'ok', 'login with client data ending in %r' % e)
"""
