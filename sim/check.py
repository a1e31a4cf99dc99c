"""The runner: explores many seeded runs for one property on all cores, reports the first violation
(lowest run index) minimised and replayable, and writes the evidence file."""
import gc
import json
import os
import pickle
import sys
import time
import traceback

from sim import known

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# property -> [(generator, weight)], quick runs, thorough seconds
CHECKS = {
    'C01': ([('lib:C01', 1)], 5200), 'C02': ([('lib:C02', 1)], 5200), 'C03': ([('lib:C03', 1)], 5600),
    'C04': ([('lib:C04', 1)], 5200), 'C05': ([('lib:C05', 1)], 5600), 'C06': ([('lib:C06', 1)], 2800),
    'C07': ([('lib:C07', 1)], 5200), 'C08': ([('lib:C08', 1)], 3600), 'C09': ([('lib:C09', 1)], 5200),
    'C10': ([('lib:C10', 1)], 5600), 'C11': ([('lib:C11', 1)], 1900), 'C12': ([('lib:C12', 1)], 2000),
    'C13': ([('codec:C13', 3), ('lib:C13', 1)], 4800),
    'C14': ([('build:C14', 1)], 5200), 'C15': ([('lib:C15', 1)], 7000),
    'C16': ([('app:C16', 1)], 4000), 'C17': ([('app:C17', 1)], 4000), 'C18': ([('app:C18', 1)], 3000),
    'C21': ([('app:C21', 1)], 3000), 'C22': ([('app:C22', 1)], 4000),
}
QUICK_WALL = 240
THOROUGH_WALL = 660
STUBS = {
    'lib': ('real: webauthn_rp (parsers, backends, verifiers, attesters, converters, validators, types, utils), '
            'cryptography/OpenSSL, cbor2, pyasn1',
            'simulated: clients, authenticators, attestation CAs, network, credential storage (registrar), '
            'process crashes, interrupts, thread scheduler and locks'),
    'codec': ('real: converters.cose_key, parsers.parse_cose_key, verifiers.verify, types',
              'simulated: authenticators, durable storage of key blobs with torn/lost/corrupted writes, restarts, '
              'thread scheduler'),
    'build': ('real: builders, converters.jsonify, types', 'simulated: RP threads, wire, client, thread scheduler, '
              'interrupts'),
    'app': ('real: examples/flask/app.py and all of webauthn_rp',
            'simulated: flask (routing, request, response), flask_sqlalchemy with a transactional database, '
            'clock, secrets, clients, authenticators, network, crashes, thread scheduler'),
}


def make_plan(genname, seed):
    kind, prof = genname.split(':')
    if kind == 'lib':
        from sim import gen
        plan = gen.make(seed, prof)
    elif kind == 'codec':
        from sim import codecworld
        plan = codecworld.make(seed, prof)
    elif kind == 'build':
        from sim import buildworld
        plan = buildworld.make(seed, prof)
    else:
        from sim import appworld
        plan = appworld.make(seed, prof)
    plan['gen'] = genname
    return json.loads(json.dumps(plan))


def which(prop, i):
    gens = CHECKS[prop][0]
    tot = sum(w for _, w in gens)
    x = i % tot
    for g, w in gens:
        if x < w:
            return g
        x -= w


def preload(prop):
    """Import the code under test and dependencies once; children are forked from here."""
    import sim.repo      # noqa: F401
    from sim import execute, gen, minim, world   # noqa: F401
    kinds = {g.split(':')[0] for g, _ in CHECKS[prop][0]}
    for k in sorted(kinds):
        execute.world_class({'kind': k})
    from sim import crypto, der
    crypto.key('P-256', 'warm').sign(b'x', 'ES256')
    der.rsa_spki()
    gc.collect()
    gc.freeze()


class Agg:
    def __init__(self):
        self.runs = self.calls = self.nontriv = 0
        self.stats = {}
        self.states = set()
        self.digests = set()
        self.sched = set()
        self.cover = set()
        self.simtime = 0.0
        self.hit = None
        self.error = None
        self.samples = []
        self.other = {}
        self.known = {}

    def merge(self, o):
        self.runs += o.runs
        self.calls += o.calls
        self.simtime += o.simtime
        for k, v in o.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in o.other.items():
            self.other[k] = self.other.get(k, 0) + v
        self.states |= o.states
        self.digests |= o.digests
        self.sched |= o.sched
        self.cover |= o.cover
        self.samples += o.samples
        if o.hit and (self.hit is None or o.hit[0] < self.hit[0]):
            self.hit = o.hit
        if o.error and self.error is None:
            self.error = o.error


def seed_of(prop, base, i):
    return '%s/%s/%d' % (base, prop, i)


def worker(prop, base, idxs, best, t_end):
    from sim.core import digest
    from sim.execute import HarnessError, execute
    a = Agg()
    for i in idxs:
        if time.monotonic() > t_end or i > best():
            break
        try:
            plan = make_plan(which(prop, i), seed_of(prop, base, i))
            r = execute(plan, cover=(i % 16 == 0))
        except (HarnessError, Exception):
            if a.error is None:
                a.error = (i, traceback.format_exc())
            a.stats['harness_errors'] = a.stats.get('harness_errors', 0) + 1
            if a.stats['harness_errors'] > 20:
                break
            continue
        a.runs += 1
        a.calls += r['calls']
        a.simtime += r['t']
        for k, v in r['stats'].items():
            a.stats[k] = a.stats.get(k, 0) + v
        a.states |= {digest(repr(s)) for s in r['states']}
        a.sched |= r['sched']
        a.cover |= r['cover']
        if r['calls'] >= 2 and any(k.startswith(('fault', 'admin', 'switch')) for k in r['stats']):
            a.digests.add(digest(repr(r['log'])))
        if i < 2:
            a.samples.append({'seed': seed_of(prop, base, i), 'plan': plan, 'history': [repr(x) for x in r['log']]})
        mine = []
        for v in r['violations']:
            if prop in v['tags']:
                mine.append(v)
            else:
                k = ','.join(v['tags'])
                a.other[k] = a.other.get(k, 0) + 1
        if mine:
            a.hit = (i, mine[0])
            best(i)
            break
    return a


def explore(prop, base, nruns, wall, jobs):
    import mmap
    shared = mmap.mmap(-1, 16)
    shared[0:8] = (2**62).to_bytes(8, 'big')

    def best(new=None):
        cur = int.from_bytes(shared[0:8], 'big')
        if new is not None and new < cur:
            shared[0:8] = new.to_bytes(8, 'big')
        return cur
    t_end = time.monotonic() + wall
    pipes = []
    for k in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                a = worker(prop, base, range(k, nruns, jobs), best, t_end)
                data = pickle.dumps(a, 4)
                off = 0
                while off < len(data):
                    off += os.write(w, data[off:off + (1 << 20)])
            except BaseException:      # noqa: B902
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    tot = Agg()
    for pid, r in pipes:
        chunks = []
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        os.waitpid(pid, 0)
        if not chunks:
            tot.error = tot.error or (-1, 'a worker died')
            continue
        tot.merge(pickle.loads(b''.join(chunks)))
    return tot


def in_fork(fn):
    """Run fn in a forked child (so that this process stays pristine) and return its value."""
    from sim.execute import forked
    return fn()


def main(prop):
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    base = os.environ.get('VERIF_SEED', '1')
    try:
        iseed = int(base)
    except ValueError:
        iseed = 0
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4
    gens, nq = CHECKS[prop]
    if tier == 'thorough':
        nruns, wall = 10**9, float(os.environ.get('VERIF_WALL', THOROUGH_WALL))
    else:
        nruns, wall = int(os.environ.get('VERIF_RUNS', nq)), QUICK_WALL
    print('property %s tier %s seed %s: up to %s runs on %d workers' % (
        prop, tier, base, nruns if nruns < 10**9 else 'unlimited', jobs), flush=True)
    preload(prop)
    t1 = time.monotonic()
    tot = explore(prop, base, nruns, wall, jobs)
    t2 = time.monotonic()
    code = 0
    replay = None
    if tot.hit:
        replay = report(prop, base, tot)
        code = 1
    elif tot.error:
        # a run the machinery itself could not judge: counted as such in the evidence; more than a few give no answer
        print('harness error in run %s:\n%s' % tot.error, file=sys.stderr)
        if tot.error[0] < 0 or tot.stats.get('harness_errors', 0) > max(1, tot.runs // 1000):
            code = 2
    for k, n in sorted(tot.stats.items()):
        if k.startswith('known.%s.' % prop):
            cls = k.split('.', 2)[2]
            tot.known[cls] = n
            print('KNOWN-FINDING: property=%s %s: %s (%d times)' % (prop, cls, known.FINDINGS[prop, cls], n))
    evidence(prop, tier, iseed, tot, t2 - t1, time.monotonic() - t0, 1 if tot.hit else 0, jobs, gens)
    if tot.hit:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    elif code == 0:
        print('held on %d runs (%d responses/requests handled, %d distinct non-trivial histories) in %.1f s' % (
            tot.runs, tot.calls, len(tot.digests), t2 - t1))
    return code


def report(prop, base, tot):
    from sim.minim import Minimiser
    i, v = tot.hit
    seed = seed_of(prop, base, i)
    plan = make_plan(which(prop, i), seed)
    m = Minimiser(prop)
    small, sv = m.run(plan)
    if sv is None:
        small, sv = plan, v
        print('note: the violation did not recur while minimising', file=sys.stderr)
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % prop)
    doc = {'property': prop, 'seed': seed, 'run': i, 'violation': sv, 'original_ops': len(plan['ops']),
           'minimised_ops': len(small['ops']), 'minimiser_runs': m.tried, 'plan': small,
           'how': 'bin/replay %s' % path}
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    print('run %d (seed %s): %s' % (i, seed, v['what']))
    print('minimised from %d to %d operations: %s' % (len(plan['ops']), len(small['ops']), sv['what']))
    return path


def evidence(prop, tier, seed, tot, dt, wall, nviol, jobs, gens):
    kinds = sorted({g.split(':')[0] for g, _ in gens})
    faults = {k: v for k, v in sorted(tot.stats.items()) if k.startswith(('fault.', 'admin.'))}
    cov = {}
    for fn, ln in tot.cover:
        cov.setdefault(fn.replace('/repo/', ''), set()).add(ln)
    samples = []
    for s in tot.samples[:2]:
        txt = json.dumps(s['plan'], sort_keys=True)
        samples.append({'seed': s['seed'], 'plan': s['plan'] if len(txt) < 20000 else txt[:20000],
                        'history': s['history'][:40]})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2),
        'violations': nviol,
        'coverage': {
            'evaluations': tot.runs,
            'distinct_nontrivial': len(tot.digests),
            'rule': 'one evaluation is one simulated run: a seeded plan of ceremonies, messages, faults, crashes and '
                    'interleavings executed against the real code; counted as non-trivial when at least two requests '
                    'were handled and at least one fault, attack, storage change or thread switch actually fired, and '
                    'as distinct when its judged history (outcome, violated requirements and storage calls of every '
                    'request, in order) differs from every other run\'s',
            'samples': samples,
            'generators': [g for g, _ in gens],
            'runs_without_verdict': tot.stats.get('harness_errors', 0),
            'requests_handled': tot.calls,
            'simulated_seconds': round(tot.simtime, 1),
            'runs_per_hour': int(tot.runs / max(dt, 1e-6) * 3600),
            'seeds_per_hour': int(tot.runs / max(dt, 1e-6) * 3600),
            'workers': jobs,
            'fault_kinds_fired': faults,
            'other_counts': {k: v for k, v in sorted(tot.stats.items()) if k not in faults},
            'distinct_interleavings': len(tot.sched),
            'distinct_judged_situations': len(tot.states),
            'lines_of_repo_reached_in_sampled_runs': {k: len(v) for k, v in sorted(cov.items())},
            'components': {k: {'ran_real_code': STUBS[k][0], 'ran_a_stub': STUBS[k][1]} for k in kinds},
            'known_findings_seen': tot.known,
            'violations_of_other_properties_seen': tot.other,
        },
        'assumptions': [
            'sampled exploration: a clean batch is evidence, not proof',
            'OpenSSL signature primitives and SHA-256 are trusted (used by the reference oracle as well)',
            'threads are scheduled at source-line granularity of the code under test, lock operations and storage calls',
        ],
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(p + '.tmp', p)


def replay(path):
    doc = json.load(open(path, encoding='utf-8'))
    prop, plan = doc['property'], doc['plan']
    preload(prop)
    from sim.execute import execute
    r = execute(plan)
    for x in r['log']:
        print('  ', x)
    for v in r['violations']:
        print('violates %s: %s' % (','.join(v['tags']), v['what']))
    for v in r['violations']:
        if prop in v['tags']:
            same = v['what'] == doc['violation']['what']
            print('reproduced%s' % (' exactly' if same else ' (the text differs from the recorded one)'))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
    print('not reproduced: property %s held on this replay' % prop)
    return 0


if __name__ == '__main__':
    try:
        if sys.argv[1] == 'replay':
            rc = replay(sys.argv[2])
        else:
            rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
