"""determinism.py N: every generator of every check, N seeds, executed twice: in order in one process, and in reverse order
in another process that also executes unrelated runs in between (PYTHONHASHSEED as bin/check sets it). Histories, verdicts,
statistics, states and thread switches must be identical."""
import hashlib
import os
import subprocess
import sys

sys.path.insert(0, '/verif')


def one(variant, n):
    from sim import check
    from sim.execute import execute
    gens = sorted({g for c in check.CHECKS.values() for g, _ in c[0]})
    for p in sorted(check.CHECKS):
        check.preload(p)
    jobs = [(g, i) for g in gens for i in range(n)]
    if variant == 'b':
        jobs.reverse()
    k, kids = 8, []
    for w in range(k):
        pid = os.fork()
        if pid == 0:
            out = []
            for j, (g, i) in enumerate(jobs[w::k] if variant == 'a' else jobs[w * len(jobs) // k:(w + 1) * len(jobs) // k]):
                if variant == 'b' and j % 3 == 0:
                    execute(check.make_plan(g, 'noise/%d' % j))
                r = execute(check.make_plan(g, 'det/%d' % i))
                d = repr((r['log'], r['violations'], sorted(r['stats'].items()), sorted(map(repr, r['states'])),
                          sorted(map(repr, r['switches'].items())), r['calls'], r['t'], sorted(r['sched'])))
                out.append('%s %d %s' % (g, i, hashlib.sha256(d.encode()).hexdigest()[:16]))
            with open('/tmp/det.%s.%d' % (variant, w), 'w') as f:
                f.write('\n'.join(out) + '\n')
            os._exit(0)
        kids.append(pid)
    for pid in kids:
        os.waitpid(pid, 0)
    res = []
    for w in range(k):
        f = '/tmp/det.%s.%d' % (variant, w)
        res += open(f).read().splitlines()
        os.unlink(f)
    return sorted(x for x in res if x)


if len(sys.argv) > 2:
    print('\n'.join(one(sys.argv[2], int(sys.argv[1]))))
else:
    outs = []
    for v in 'ab':
        outs.append(subprocess.run([sys.executable, __file__, sys.argv[1], v], capture_output=True, text=True,
                                   env=dict(os.environ, PYTHONHASHSEED='0')).stdout.splitlines())
    diff = [x for x in zip(*outs) if x[0] != x[1]]
    print('%d runs executed twice, %d differ' % (len(outs[0]), len(diff)))
    for x in diff[:10]:
        print(x)
    sys.exit(bool(diff) or len(outs[0]) != len(outs[1]))
