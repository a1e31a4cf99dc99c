from probeedits import edits
EDITS = edits('w-warning')
META = {"property": 'C08', "needs": 'storage that fails a login write with an exception class derived from Warning',
        "what_it_breaks": 'the login is reported successful though storage did not record it'}
DEMO = """
from wa import *
d, s = Dev(), Site()
expect(s.register(d), 'ok', 'register')
def fail(e):
    def f():
        raise e('data truncated')
    return f
for e in (ValueError, OSError, Warning, UserWarning):
    s.reg.on_put = fail(e)
    expect(s.login(d), 'RegistrationError', 'login when storage raises ' + e.__name__)
s.reg.on_put = None
expect(s.login(d), 'ok', 'login')
"""
