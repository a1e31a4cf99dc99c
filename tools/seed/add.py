"""add.py <id> : builds seeded/<id> from tools/seed/bugs/<id>.py (EDITS, DEMO, META), confirming in a scratch copy
that the change applies, passes the repository's tests, and that the demonstration tells the trees apart."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
S = '/tmp/seedwork'
BASELINE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd=None, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def build(bid, keep_failed=False):
    spec = importlib.util.spec_from_file_location('b', os.path.join(V, 'tools/seed/bugs', bid + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    d = os.path.join(V, 'seeded', bid)
    # the edit, made in /repo itself only for as long as the diff and the tests take
    for f, edits in m.EDITS.items():
        p = os.path.join('/repo', f)
        s = open(p).read()
        for a, b in edits:
            if not s.count(a) or s.count(a) != 1 and not b.startswith('ALL:'):
                sh('git checkout -- .', '/repo')
                return '%s: %d matches of %r' % (f, s.count(a), a[:60])
            s = s.replace(a, b[4:] if b.startswith('ALL:') else b)
        open(p, 'w').write(s)
    try:
        diff = sh('git diff', '/repo').stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        shutil.copy(os.path.join(V, 'tools/seed/wa.py'), d)
        if 'app' in getattr(m, 'FILES', ()):
            shutil.copy(os.path.join(V, 'tools/seed/appdemo.py'), d)
            s = open(os.path.join(V, 'sim/flaskshim.py')).read()
            stub = '''class sched:
    class SimCrash(BaseException):
        pass

    class SimLock:
        held = False

        def acquire(self):
            if self.held:
                raise OperationalError('database is locked')
            self.held = True

        def release(self):
            self.held = False
'''
            assert s.count('from sim import sched\n') == 1
            open(os.path.join(d, 'flaskshim.py'), 'w').write(s.replace('from sim import sched\n', stub))
        open(os.path.join(d, 'demo.py'), 'w').write(m.DEMO)
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(m.META, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        t = sh('bash /opt/vp/test.sh /tmp/seed-o.json', '/repo')
        bad = sh('bash %s/demo.sh' % d, '/repo')
        o = json.load(open('/tmp/seed-o.json'))
    finally:
        sh('git checkout -- .', '/repo')
    good = sh('bash %s/demo.sh' % d, '/repo')
    passed = set(o.get('passed', []))
    want = set(BASELINE.get('passed') or BASELINE.get('stable') or BASELINE.get('tests') or [])
    miss = want - passed
    r = []
    if miss:
        r.append('%d tests fail, e.g. %s' % (len(miss), sorted(miss)[:3]))
    if good.returncode != 0:
        r.append('demo fails on the unchanged tree: ' + good.stdout[-300:] + good.stderr[-300:])
    if bad.returncode == 0:
        r.append('demo passes with the change')
    if r and not keep_failed:
        shutil.rmtree(d)
    return '; '.join(r) or 'ok (demo says: %s)' % (bad.stdout + bad.stderr).strip()[-150:]


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(x[:-3] for x in os.listdir(os.path.join(V, 'tools/seed/bugs')) if x.endswith('.py'))
    for b in ids:
        print(b, build(b), flush=True)
