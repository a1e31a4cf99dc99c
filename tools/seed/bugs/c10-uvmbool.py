EDITS = {'webauthn_rp/parsers.py': [
("""                if type(v) is not int:
                    raise ParserError(
                        'uvm""", """                if not isinstance(v, int):
                    raise ParserError(
                        'uvm""")]}
META = {"property": "C10", "needs": "a uvm extension output that holds a boolean in place of a number",
        "what_it_breaks": "mistyped extension outputs are accepted"}
DEMO = """
from wa import *
d = Dev(); s = Site()
expect(s.register(d), 'ok', 'register')
expect(s.login(d, auth_json(d, exts={'uvm': [[2, 4, 2]]})), 'ok', 'login')
for v in ('x', 1.5, None, True):
    expect(s.login(d, auth_json(d, exts={'uvm': [[2, v, 2]]})), 'ParserError', 'uvm entry %r' % v)
"""
