EDITS = {'webauthn_rp/parsers.py': [
("""    scheme = url.scheme
    if port is None:
        port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]

    return Origin(
        scheme=scheme,
        hostname=hostname,
        port=port,
    )""", """    if port in _SCHEME_DEFAULT_PORT_MAPPING.values():
        port = None

    return Origin(
        scheme=url.scheme,
        hostname=hostname,
        port=_SCHEME_DEFAULT_PORT_MAPPING[url.scheme] if port is None else port,
    )""")]}
META = {"property": "C02", "needs": "an origin that names the other scheme's default port (https on 80 or http on 443)",
        "what_it_breaks": "https://host:80 is taken for https://host, and http://host:443 for http://host"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(d, client('webauthn.get', origin=ORIGIN + ':8443'))), 'OriginError', 'other port')
expect(s.login(d, auth_json(d, client('webauthn.get', origin=ORIGIN + ':80'))), 'OriginError', 'port 80 of https')
"""
