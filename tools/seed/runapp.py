"""runapp.py [ids]: changes to the example server (commits and planted bugs may not touch examples/, so these are not
kept under seeded/): each is made in /repo, its property's quick check run, and undone."""
import importlib.util
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
D = os.path.join(V, 'tools/seed/appbugs')
for b in sys.argv[1:] or sorted(x[:-3] for x in os.listdir(D) if x.endswith('.py')):
    spec = importlib.util.spec_from_file_location('b', os.path.join(D, b + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    try:
        bad = None
        for f, edits in m.EDITS.items():
            p = os.path.join('/repo', f)
            s = open(p).read()
            for x, y in edits:
                if s.count(x) != 1:
                    bad = '%d matches of %r' % (s.count(x), x[:50])
                s = s.replace(x, y)
            open(p, 'w').write(s)
        if bad:
            print(b, bad)
            continue
        prop = m.META['property']
        o = subprocess.run(['bin/check', prop], cwd=V, capture_output=True, text=True)
        print(b, prop, o.returncode, [x[:150] for x in o.stdout.splitlines() if x.startswith(('run ', 'min', 'harn'))], flush=True)
    finally:
        subprocess.run(['git', 'checkout', '--', '.'], cwd='/repo')
