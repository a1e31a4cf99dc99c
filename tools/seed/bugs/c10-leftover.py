EDITS = {'webauthn_rp/parsers.py': [
("""            aeci = parse_extensions(extensions)
        except EOFError:
            raise ParserError('Could not read the included extension data')

    if remaining_bytes_io.read1(1) != b'':""", """            aeci = parse_extensions(extensions)
        except EOFError:
            raise ParserError('Could not read the included extension data')
    elif remaining_bytes_io.read1(1) != b'':""")]}
META = {"property": "C10", "needs": "authenticator data with extensions followed by more bytes",
        "what_it_breaks": "authenticator data with leftover bytes after the extensions is accepted"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
for x in (None, {'uvi': b'1'}):
    expect(s.login(d, auth_json(d, count=1, exts=x)), 'ok', 'login')
    expect(s.login(d, auth_json(d, ad=authdata(None, count=2, exts=x) + b'x')), 'ParserError', 'leftover bytes')
    s.reg.recs[d.cid] = s.reg.recs[d.cid]._replace(signature_count=None)
"""
