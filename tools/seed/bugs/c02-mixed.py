EDITS = {'webauthn_rp/backends.py': [
("""            for opaque_origin in expected_origin:
                allowed_origins.add(parse_origin(opaque_origin))
""", """            parsed = [parse_origin(x) for x in expected_origin]
            # An RP served on several ports or schemes is still one RP.
            hosts = {x.hostname for x in parsed}
            schemes = {x.scheme for x in parsed}
            ports = {x.port for x in parsed}
            for h in hosts:
                for s in schemes:
                    allowed_origins.update(
                        Origin(scheme=s, hostname=h, port=p) for p in ports)
""")]}
META = {"property": "C02", "needs": "a collection of allowed origins that differ in more than one of scheme, host and port, "
        "and a response from a mixture of them",
        "what_it_breaks": "a response collected on an origin that is not listed (host of one entry, port of another) is accepted"}
DEMO = """
from wa import *
d = Dev(); s = Site()
ok = ['https://example.com', 'https://login.example.com:8443']
expect(s.register(d, expected_origin=ok), 'ok', 'register')
expect(s.login(d, expected_origin=ok), 'ok', 'login')
j = auth_json(d, client('webauthn.get', origin='https://example.com:8443'), count=1)
expect(s.login(d, j, expected_origin=ok), 'OriginError', 'login from an unlisted port')
"""
