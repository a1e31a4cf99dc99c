"""mutants.py tests|hunt [every [offset]]: classic mutants of the library (comparison, boolean, constant, statement and
argument changes). `tests` lists those which the repository's tests let pass (/tmp/m/survivors.json); `hunt` looks for
each of these with the properties' generators and prints the ones no property notices."""
import ast
import json
import os
import random
import subprocess
import sys
import tempfile

V = '/verif'
FILES = ('asn1', 'attesters', 'backends', 'builders', 'constants', 'converters', 'parsers', 'registrars', 'types',
         'utils', 'validators', 'verifiers')
SRC = os.environ.get('MUT_SRC', '/repo/webauthn_rp')
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
PROPS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16',
         'C17', 'C18', 'C21', 'C22']


def sites(tree):
    """-> [(description, function that changes the tree in place)], the same list for the same source"""
    out = []

    def add(n, what, f):
        out.append(('%d %s' % (n.lineno, what), f))

    def setf(n, k, v):
        return lambda: setattr(n, k, v)

    def walk(n, quiet):
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            if isinstance(n, ast.Raise):
                return
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                if type(o) in CMP:
                    def f(n=n, i=i, o=o):
                        n.ops[i] = CMP[type(o)]()
                    add(n, 'op %s in %s' % (type(o).__name__, ast.unparse(n)[:60]), f)
        if isinstance(n, ast.BoolOp):
            add(n, 'and/or %s' % ast.unparse(n)[:60], setf(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                def f(n=n, i=i):
                    n.values.pop(i)
                    if len(n.values) == 1:
                        n.values.append(n.values[0])
                add(n, 'drop operand %d of %s' % (i, ast.unparse(n)[:60]), f)
        if isinstance(n, (ast.If, ast.IfExp)):
            for b in (True, False):
                add(n, 'if %s -> %s' % (ast.unparse(n.test)[:60], b), setf(n, 'test', ast.Constant(b)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def f(n=n):
                n.op = ast.Not()
                n.operand = ast.UnaryOp(ast.Not(), n.operand)
            add(n, 'not %s' % ast.unparse(n)[:60], f)
        if isinstance(n, ast.Constant) and not quiet:
            v = n.value
            if isinstance(v, bool):
                add(n, 'const %r' % v, setf(n, 'value', not v))
            elif isinstance(v, int):
                add(n, 'const %r +1' % v, setf(n, 'value', v + 1))
                add(n, 'const %r -1' % v, setf(n, 'value', v - 1))
            elif isinstance(v, str):
                add(n, 'const %r' % v[:40], setf(n, 'value', v + 'X'))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.BitAnd, ast.BitOr, ast.LShift, ast.RShift)):
            o = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift,
                 ast.RShift: ast.LShift}[type(n.op)]
            add(n, 'binop %s' % ast.unparse(n)[:60], setf(n, 'op', o()))
        if isinstance(n, ast.Slice):
            for k in ('lower', 'upper'):
                if getattr(n, k) is not None:
                    add(n, 'slice without %s %s' % (k, ast.unparse(n)), setf(n, k, None))
        if isinstance(n, ast.Call) and not quiet:
            for i, k in enumerate(n.keywords):
                if k.arg:
                    add(n, 'without keyword %s of %s' % (k.arg, ast.unparse(n)[:50]), lambda n=n, k=k: n.keywords.remove(k))
            if len(n.args) > 1:
                def f(n=n):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                add(n, 'swap arguments of %s' % ast.unparse(n)[:60], f)
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    add(n, 'except without %s' % ast.unparse(n.type.elts[i]), lambda n=n, i=i: n.type.elts.pop(i))
            else:
                add(n, 'except %s -> none' % ast.unparse(n.type), setf(n, 'type', ast.Tuple([], ast.Load())))
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    dead = isinstance(s, (ast.Raise, ast.Break, ast.Continue, ast.AugAssign)) or \
                        isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant) or \
                        isinstance(s, ast.Assign) and not isinstance(n, (ast.ClassDef, ast.Module)) or \
                        isinstance(s, ast.Return) and s.value is not None
                    if dead:
                        def f(b=b, i=i, s=s):
                            b[i] = ast.Return(None) if isinstance(s, ast.Return) else ast.Pass()
                        add(s, 'delete %s' % ast.unparse(s)[:70].replace('\n', ' '), f)
        for name, val in ast.iter_fields(n):
            if name in ('annotation', 'returns', 'decorator_list'):
                continue
            for c in val if isinstance(val, list) else [val]:
                if not isinstance(c, ast.AST):
                    continue
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                    continue
                walk(c, quiet or isinstance(c, ast.Call) and ast.unparse(c.func) in ('cast', 'TypeVar', 'NewType'))
    walk(tree, False)
    return out


def mutated(f, k):
    t = ast.parse(open('%s/%s.py' % (SRC, f)).read())
    s = sites(t)
    s[k][1]()
    return ast.unparse(ast.fix_missing_locations(t)) + '\n'


def all_sites():
    return [(f, k, d) for f in FILES for k, (d, _) in enumerate(sites(ast.parse(open('%s/%s.py' % (SRC, f)).read())))]


def tests(worker, workers):
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base.get('passed') or base.get('stable') or base.get('tests'))
    out = []
    for n, (f, k, d) in enumerate(all_sites()):
        if n % workers != worker:
            continue
        p = '/repo/webauthn_rp/%s.py' % f
        old = open(p).read()
        try:
            new = mutated(f, k)
            open(p, 'w').write(new)
            # quick look first: the tests stop at the first failure
            r = subprocess.run('cd /repo && timeout 60 /opt/venv/bin/python -B -m pytest tests -q -x -p no:cacheprovider',
                               shell=True, capture_output=True, text=True)
            if r.returncode == 0:
                out.append((f, k, d))
                open('/tmp/m/surv.%d' % worker, 'a').write(json.dumps([f, k, d]) + '\n')
        except (IndexError, SyntaxError, ValueError, TypeError) as e:
            print('cannot', f, k, d, e)
        finally:
            open(p, 'w').write(old)
    return out


if __name__ == '__main__':
    os.makedirs('/tmp/m', exist_ok=True)
    ns = os.environ.get('SEED_NS')
    if not ns:
        jobs = [str(x) for x in range(8)] if sys.argv[1] == 'tests' else ['0']
        ps = []
        for j in jobs:
            w = tempfile.mkdtemp(prefix='seedns.', dir='/tmp')
            subprocess.call('cp -a /repo %s/repo; cp -a /repo/webauthn_rp %s/orig; cp -a /verif %s/verif' % (w, w, w), shell=True)
            ps.append((w, subprocess.Popen(
                ['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo; mount --bind %s/verif /verif; '
                 'exec python3 /verif/tools/seed/mutants.py "$@"' % (w, w), '-'] + sys.argv[1:],
                env=dict(os.environ, SEED_NS=w, MUT_SRC=w + '/orig', MUT_W=j))))
        for w, p in ps:
            p.wait()
            subprocess.call(['rm', '-rf', w])
        sys.exit()
    if sys.argv[1] == 'tests':
        tests(int(os.environ['MUT_W']), 8)
        sys.exit()
    every, off = (int(x) for x in (sys.argv[2:] + ['1', '0'])[:2]) if len(sys.argv) > 3 else (1, 0)
    todo = []
    for x in range(8):
        if os.path.exists('/tmp/m/surv.%d' % x):
            todo += [tuple(json.loads(l)) for l in open('/tmp/m/surv.%d' % x)]
    todo.sort()
    random.Random(0).shuffle(todo)
    todo.sort(key=lambda x: x[0] in ('asn1', 'types'))
    for n, (f, k, d) in enumerate(todo):
        if n % every != off:
            continue
        subprocess.call('rm -rf /repo/webauthn_rp; cp -a %s/orig /repo/webauthn_rp' % ns, shell=True)
        open('/repo/webauthn_rp/%s.py' % f, 'w').write(mutated(f, k))
        got = None
        for share in (0.025,) if os.environ.get('MUT_FAST') else (0.03, 0.3):
            o = subprocess.run(['/opt/venv/bin/python', V + '/tools/seed/guards.py', 'hunt', str(share), ','.join(PROPS)],
                               capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED='0'))
            try:
                got = json.loads(o.stdout.strip().splitlines()[-1])
            except (ValueError, IndexError):
                got = ['ERR', o.stderr[-300:]]
            if got:
                break
        print('found ' if got else 'MISSED', f, k, d, got or '', flush=True)
