from probeedits import edits
EDITS = edits('w-utf16')
META = {"property": 'C10', "needs": 'client data JSON in UTF-16 or UTF-32',
        "what_it_breaks": 'client data that are not UTF-8 are accepted'}
DEMO = """
from wa import *
d, s = Dev(), Site()
t = client('webauthn.create').decode()
expect(s.register(d, reg_json(d, t.encode('utf-16-le'))) != 'ok', True, 'UTF-16 client data')
expect(s.register(d, reg_json(d, t.encode('utf-32'))) != 'ok', True, 'UTF-32 client data')
expect(s.register(d), 'ok', 'register')
"""
