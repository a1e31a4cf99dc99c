"""probe.py [names]: quick experiments. Every entry of probes/*.py (NAME: (properties, {file: [(old, new)]})) is applied to
a scratch copy of /repo visible only in this process's mount namespace; the tests and the named quick checks are run."""
import importlib.util
import json
import os
import subprocess
import sys
import tempfile

V = '/verif'


def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)


if not os.environ.get('SEED_NS'):
    w = tempfile.mkdtemp(prefix='seedns.', dir='/tmp')
    sh('cp -a /repo %s/repo; cp -a /verif %s/verif; mkdir %s/tmp' % (w, w, w))
    rc = subprocess.call(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo; mount --bind %s/verif /verif; '
                          'exec python3 /verif/tools/seed/probe.py "$@"' % (w, w), '-'] + sys.argv[1:],
                         env=dict(os.environ, SEED_NS=w))
    sh('rm -rf %s' % w)
    sys.exit(rc)
W = os.environ['SEED_NS']
B = json.load(open('/opt/vp/BASELINE.json'))
WANT = set(B.get('passed') or B.get('stable') or B.get('tests') or [])
probes = {}
for f in sorted(os.listdir(V + '/tools/seed/probes')):
    if f.endswith('.py'):
        spec = importlib.util.spec_from_file_location('p', V + '/tools/seed/probes/' + f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for k, v in m.P.items():
            probes[k] = tuple(v[:2]) + (f[:-3],)
names = []
for a in sys.argv[1:] or sorted(probes):
    names += [k for k in probes if probes[k][2] == a[1:]] if a[0] == '@' else [a]
for n in names:
    props, edits = probes[n][:2]
    sh('git checkout -q -- .', '/repo')
    bad = None
    for f, es in edits.items():
        p = '/repo/webauthn_rp/' + f
        s = open(p).read()
        for a, b in es:
            if s.count(a) < 1 or (s.count(a) > 1 and not b.startswith('ALL:')):
                bad = '%d matches of %r' % (s.count(a), a[:50])
            s = s.replace(a, b[4:] if b.startswith('ALL:') else b)
        open(p, 'w').write(s)
    if bad:
        print(n, 'BROKEN', bad, flush=True)
        continue
    sh('bash /opt/vp/test.sh %s/o.json' % W, '/repo')
    o = json.load(open(W + '/o.json'))
    miss = WANT - set(o.get('passed', []))
    if miss:
        print(n, 'TESTS FAIL', len(miss), sorted(miss)[0][-60:], flush=True)
        continue
    if os.environ.get('PROBE_DRY'):
        print(n, 'ok', flush=True)
        continue
    for c in props.split():
        r = sh('VERIF_SEED=1 bin/check %s' % c, V)
        out = [x for x in r.stdout.splitlines() if x.startswith('minimised')]
        ev = json.load(open(V + '/evidence/%s.json' % c))
        print(n, c, 'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'RC%d %s' % (
            r.returncode, r.stderr[-300:]), (out[0][:150] if out else ''),
              '' if r.returncode == 1 else ev['coverage']['violations_of_other_properties_seen'], flush=True)
sh('git checkout -q -- .', '/repo')
