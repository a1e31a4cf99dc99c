"""guards.py [N [seed]]: systematic probes. Every `if ...: raise` of the library is a guard; a probe skips one guard when
a rarely true condition about the request holds. Reports which probes the properties' generators find, within the
number of runs of the quick checks. (Tests are not run: most of these pass them, being conditional.)"""
import ast
import hashlib
import json
import os
import random
import subprocess
import sys
import tempfile

HELPER = r'''
import hashlib, _thread
CTX = {}
CALLS = [0]
def enter(l):
    CALLS[0] += 1
    CTX[_thread.get_ident()] = l
def ctx(l):
    d = dict(CTX.get(_thread.get_ident()) or {})
    d.update(l)
    return d
def ad(d):
    r = d['credential'].response
    if hasattr(r, 'authenticator_data'):
        return r.authenticator_data
    from cbor2 import loads
    return loads(r.attestation_object)['authData']
def cnt(d):
    return int.from_bytes(ad(d)[33:37], 'big')
def h(b, n):
    return hashlib.sha256(b).digest()[0] < n
PRED = {
 'always': lambda d: True,
 'chal64': lambda d: len(d['expected_challenge']) == 64,
 'chal1': lambda d: len(d['expected_challenge']) == 1,
 'cid255': lambda d: len(d['credential'].raw_id) >= 255,
 'cid1': lambda d: len(d['credential'].raw_id) < 16,
 'uv': lambda d: d['require_user_verification'],
 'rfu': lambda d: ad(d)[32] & 0x3a,
 'cnt31': lambda d: cnt(d) >= 2 ** 31,
 'cnt0': lambda d: cnt(d) == 0,
 'cnt255': lambda d: cnt(d) % 256 == 0 and cnt(d) > 0,
 'tb': lambda d: d['token_binding'] is not None,
 'tbid': lambda d: d['token_binding'].id == '',
 'orig3': lambda d: not isinstance(d['expected_origin'], str) and len(d['expected_origin']) >= 3,
 'origset': lambda d: isinstance(d['expected_origin'], (set, frozenset)),
 'port': lambda d: isinstance(d['expected_origin'], str) and d['expected_origin'].count(':') > 1,
 'http': lambda d: isinstance(d['expected_origin'], str) and d['expected_origin'].startswith('http:'),
 'noname': lambda d: d['user'].name == '',
 'uid0': lambda d: d['user'].id[0] == 0,
 'uid64': lambda d: len(d['user'].id) == 64,
 'nouser': lambda d: d['user'] is None,
 'norp': lambda d: d['rp'] is None,
 'rpuni': lambda d: not d['rp'].name.isascii(),
 'local': lambda d: d['rp'].id == 'localhost',
 'noexts': lambda d: d['expected_extensions'] == set(),
 'exts': lambda d: len(d['expected_extensions']) >= 2,
 'cdbig': lambda d: len(d['credential'].response.client_data_JSON) > 4000,
 'cross': lambda d: b'crossOrigin":true' in d['credential'].response.client_data_JSON,
 'cdsp': lambda d: d['credential'].response.client_data_JSON[:1] != b'{',
 'cdesc': lambda d: b'\\u0065' in d['credential'].response.client_data_JSON,
 'ff': lambda d: ad(d)[37:53] == b'\xff' * 16,
 'allow3': lambda d: len(d['allow_credentials']) >= 3,
 'allow0': lambda d: d['allow_credentials'] is not None and len(d['allow_credentials']) == 1,
 'nohandle': lambda d: d['credential'].response.user_handle is None,
 'ext': lambda d: ad(d)[32] & 0x80,
 'extbig': lambda d: ad(d)[32] & 0x80 and len(ad(d)) > 400,
 'kid': lambda d: b'\x02\x43kid' in ad(d),
 'ops': lambda d: b'\x04\x85' in ad(d) or b'\x04\x82' in ad(d),
 'h5': lambda d: h(d['credential'].raw_id, 13),
 'c1': lambda d: h(d['expected_challenge'], 3),
 'each8': lambda d: CALLS[0] % 8 == 7,
 'ten': lambda d: CALLS[0] >= 10,
 'first': lambda d: CALLS[0] == 1,
 'ignore': lambda d: d['ignore_clone_error'],
}
def cond(n, l):
    try:
        return bool(PRED[n](ctx(l)))
    except Exception:
        return False
'''
V = '/verif'
FILES = ('backends', 'attesters', 'verifiers', 'parsers', 'converters', 'validators')
LIBP = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C15']


def guards():
    out = []
    for f in FILES:
        t = ast.parse(open('/repo/webauthn_rp/%s.py' % f).read())
        k = 0
        for n in ast.walk(t):
            if isinstance(n, ast.If) and any(isinstance(x, ast.Raise) for x in n.body):
                out.append((f, k, ast.unparse(n.test)[:70], n.lineno))
                k += 1
    return out


def mutate(root, f, k, pred):
    p = '%s/webauthn_rp/%s.py' % (root, f)
    t = ast.parse(open(p).read())
    i = 0
    for n in ast.walk(t):
        if isinstance(n, ast.If) and any(isinstance(x, ast.Raise) for x in n.body):
            if i == k:
                n.test = ast.parse('(%s) and not _vp.cond(%r, locals())' % (ast.unparse(n.test), pred), mode='eval').body
            i += 1
    src = 'from __future__ import annotations\n' * ('annotations' in open(p).read()[:0]) + ast.unparse(ast.fix_missing_locations(t))
    open(p, 'w').write(src + '\n')


def prepare(root):
    """The helper, and the handlers reporting their arguments to it."""
    open(root + '/webauthn_rp/_vp.py', 'w').write(HELPER)
    for f in FILES:
        p = '%s/webauthn_rp/%s.py' % (root, f)
        t = ast.parse(open(p).read())
        at = 1 if isinstance(t.body[0], ast.Expr) else 0
        while isinstance(t.body[at], ast.ImportFrom) and t.body[at].module == '__future__':
            at += 1
        t.body.insert(at, ast.parse('from webauthn_rp import _vp').body[0])
        if f == 'backends':
            for n in ast.walk(t):
                if isinstance(n, ast.FunctionDef) and n.name.startswith('handle_credential'):
                    j = 1 if isinstance(n.body[0], ast.Expr) else 0
                    n.body.insert(j, ast.parse('_vp.enter(locals())').body[0])
        open(p, 'w').write(ast.unparse(ast.fix_missing_locations(t)) + '\n')


def hunt(props, share):
    """In a process of its own: -> (property, run index) of the first violation of any of the properties."""
    sys.path.insert(0, V)
    from sim import check
    from sim.execute import execute
    for p in props:
        check.preload(p)
    m = max(int(check.CHECKS[p][1] * share) for p in props)
    jobs = [(p, i) for i in range(m) for p in props if i < check.CHECKS[p][1] * share]
    K, pids = 8, []
    r, w = os.pipe()
    for x in range(K):
        pid = os.fork()
        if pid == 0:
            for p, i in jobs[x::K]:
                try:
                    res = execute(check.make_plan(check.which(p, i), check.seed_of(p, '1', i)))
                except Exception as e:
                    continue
                if any(p in v['tags'] for v in res['violations']):
                    os.write(w, ('%s %d\n' % (p, i)).encode())
                    break
                try:
                    if os.path.exists('/tmp/g/stop.%d' % os.getppid()):
                        break
                except OSError:
                    pass
            else:
                os.write(w, b'none\n')
            os._exit(0)
        pids.append(pid)
    os.close(w)
    got, f = None, os.fdopen(r)
    while True:
        s = f.readline()
        if not s:
            break
        if s.strip() != 'none' and got is None:
            got = s.split()
            open('/tmp/g/stop.%d' % os.getpid(), 'w').close()
    for pid in pids:
        os.waitpid(pid, 0)
    try:
        os.unlink('/tmp/g/stop.%d' % os.getpid())
    except OSError:
        pass
    return got


if __name__ == '__main__':
    if sys.argv[1] == 'hunt':
        print(json.dumps(hunt(sys.argv[3].split(','), float(sys.argv[2]))))
        sys.exit()
    if not os.environ.get('SEED_NS'):
        os.makedirs('/tmp/g', exist_ok=True)
        w = tempfile.mkdtemp(prefix='seedns.', dir='/tmp')
        subprocess.call('cp -a /repo %s/repo; cp -a /repo/webauthn_rp %s/orig; cp -a /verif %s/verif' % (w, w, w), shell=True)
        rc = subprocess.call(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo; mount --bind %s/verif /verif; '
                              'exec python3 /verif/tools/seed/guards.py "$@"' % (w, w), '-'] + sys.argv[1:],
                             env=dict(os.environ, SEED_NS=w))
        subprocess.call('rm -rf ' + w, shell=True)
        sys.exit(rc)
    W = os.environ['SEED_NS']
    G = guards()
    rng = random.Random(sys.argv[2] if len(sys.argv) > 2 else '0')
    env = {}
    exec(HELPER, env)
    preds = [p for p in env['PRED'] if p != 'always']
    base = {}
    combos = [(g, p) for g in G for p in preds]
    rng.shuffle(combos)
    PYE = dict(os.environ, PYTHONHASHSEED='0')
    cache = '/tmp/g/base.json'
    if os.path.exists(cache):
        base = json.load(open(cache))

    def trial(g, pred, props, share):
        subprocess.call('rm -rf /repo/webauthn_rp; cp -a %s/orig /repo/webauthn_rp' % W, shell=True)
        mutate('/repo', g[0], g[1], pred)
        prepare('/repo')
        o = subprocess.run(['/opt/venv/bin/python', V + '/tools/seed/guards.py', 'hunt', str(share), ','.join(props)],
                           capture_output=True, text=True, env=PYE)
        try:
            return json.loads(o.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return ['ERR', o.stderr[-300:]]
    n = int(sys.argv[1])
    done = 0
    for g, pred in combos:
        key = '%s:%d %s' % (g[0], g[3], g[2])
        if key not in base:         # which property finds the guard's absence, and does any?
            hits = []
            for p in LIBP:
                x = trial(g, 'always', [p], 0.06)
                if x:
                    hits.append((int(x[1]) if x[0] != 'ERR' else 10 ** 6, p))
            base[key] = [p for _, p in sorted(hits)]
            json.dump(base, open(cache, 'w'))
            print('GUARD', key, base[key], flush=True)
        if not base[key]:
            continue
        x = trial(g, pred, base[key][:2], 1.0)
        print('found ' if x else 'MISSED', key, '|', pred, '|', base[key][:2], x, flush=True)
        done += 1
        if done >= n:
            break
