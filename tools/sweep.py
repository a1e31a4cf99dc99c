"""Runs of the registered generators on the unchanged tree, with other seeds than the checks use: every violation of any
property and every harness error is printed. usage: sweep.py SEEDS PROPS [FROM TO]   e.g. sweep.py 2,3 C16,C17 0 4000
(to edit while it runs, run it from a copy of the committed tree)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import check       # noqa: E402
from sim.execute import execute     # noqa: E402


def main():
    seeds, props = sys.argv[1].split(','), sys.argv[2].split(',')
    if props == ['all']:
        props = sorted(check.CHECKS)
    for prop in props:
        check.preload(prop)
    for prop in props:
        for s in seeds:
            a, b = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, check.CHECKS[prop][1])
            kids = []
            for w in range(8):
                pid = os.fork()
                if pid == 0:
                    n = 0
                    for i in range(a + w, b, 8):
                        try:
                            r = execute(check.make_plan(check.which(prop, i), check.seed_of(prop, s, i)))
                            for v in r['violations']:
                                n += 1
                                print(prop, 'seed', s, 'run', i, v, flush=True)
                        except Exception as e:
                            n += 1
                            print(prop, 'seed', s, 'run', i, 'ERROR', str(e).strip()[-300:].replace('\n', ' | '), flush=True)
                        if n >= 3:
                            break
                    os._exit(0)
                kids.append(pid)
            for k in kids:
                os.waitpid(k, 0)
            print('done', prop, 'seed', s, a, b, flush=True)


main()
