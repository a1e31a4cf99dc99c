"""Delta-debugging of a failing plan: fewer operations, fewer thread switches, plainer arguments."""
import copy
import json
import time

from sim.execute import HarnessError, execute


class Minimiser:
    def __init__(self, prop, budget=300, wall=60):
        self.prop = prop
        self.left = budget
        self.end = time.monotonic() + wall
        self.tried = 0

    def fails(self, plan):
        if self.left <= 0 or time.monotonic() > self.end:
            return None
        self.left -= 1
        self.tried += 1
        try:
            r = execute(plan)
        except (HarnessError, Exception):
            return None
        for v in r['violations']:
            if self.prop in v['tags']:
                return v, r
        return None

    def run(self, plan):
        plan = json.loads(json.dumps(plan))
        got = self.fails(plan)
        if not got:
            return plan, None
        v, r = got
        # nothing after the failing operation matters
        if v.get('op') is not None:
            p = dict(plan, ops=plan['ops'][:v['op'] + 1])
            g = self.fails(p)
            if g:
                plan, got = p, g
        plan, got = self.explicit(plan, got)
        plan, got = self.list_ddmin(plan, got, lambda p: p['ops'], lambda p, x: dict(p, ops=x))
        plan, got = self.unbatch(plan, got)
        plan, got = self.switches(plan, got)
        plan, got = self.keys(plan, got)
        plan, got = self.list_ddmin(plan, got, lambda p: p['ops'], lambda p, x: dict(p, ops=x))
        plan, got = self.world(plan, got)
        return plan, got[0]

    def attempt(self, plan, got, cand):
        g = self.fails(cand)
        if g:
            return cand, g, True
        return plan, got, False

    def list_ddmin(self, plan, got, get, put):
        n = 2
        while True:
            xs = get(plan)
            if len(xs) < 2 or self.left <= 0:
                return plan, got
            size = max(1, len(xs) // n)
            hit = False
            i = len(xs)
            while i > 0:
                lo = max(0, i - size)
                cand = put(plan, xs[:lo] + xs[i:])
                g = self.fails(cand)
                if g:
                    plan, got, hit = cand, g, True
                    xs = get(plan)
                    i = min(lo, len(xs))
                else:
                    i = lo
            if not hit:
                if size == 1:
                    return plan, got
                n = min(len(xs), n * 2)

    def explicit(self, plan, got):
        """Write the thread switches of batches out, so that they can be shrunk."""
        r = got[1]
        p = copy.deepcopy(plan)
        ch = False
        for i, o in enumerate(p['ops']):
            if o['op'] == 'batch' and i in r.get('switches', {}):
                o['sched'] = {'explicit': r['switches'][i]}
                ch = True
        if ch:
            plan, got, _ = self.attempt(plan, got, p)
        return plan, got

    def unbatch(self, plan, got):
        i = 0
        while i < len(plan['ops']):
            o = plan['ops'][i]
            if o['op'] == 'batch':
                p = dict(plan, ops=plan['ops'][:i] + o['ops'] + plan['ops'][i + 1:])
                plan, got, ok = self.attempt(plan, got, p)
                if not ok:
                    def get(q, i=i):
                        return q['ops'][i]['ops']

                    def put(q, x, i=i):
                        q = copy.deepcopy(q)
                        q['ops'][i]['ops'] = x
                        return q
                    plan, got = self.list_ddmin(plan, got, get, put)
            i += 1
        return plan, got

    def switches(self, plan, got):
        for i, o in enumerate(plan['ops']):
            if o['op'] == 'batch' and 'explicit' in o.get('sched', {}):
                def get(q, i=i):
                    return q['ops'][i]['sched']['explicit']

                def put(q, x, i=i):
                    q = copy.deepcopy(q)
                    q['ops'][i]['sched']['explicit'] = x
                    return q
                plan, got = self.list_ddmin(plan, got, get, put)
                if get(plan):
                    plan, got, _ = self.attempt(plan, got, put(plan, []))
        return plan, got

    KEEP = {'op', 'c', 'm', 'kind', 'tenant', 'user', 'rp', 'cred', 'ops', 'sched', 't', 'act', 'n', 'who'}

    def keys(self, plan, got):
        """Drop optional members one at a time, two levels deep."""
        for i in range(len(plan['ops'])):
            o = plan['ops'][i]
            subs = o['ops'] if o['op'] == 'batch' else [o]
            for j in range(len(subs)):
                def sub(p, i=i, j=j):
                    x = p['ops'][i]
                    return x['ops'][j] if x['op'] == 'batch' else x
                for k in sorted(set(sub(plan)) - self.KEEP):
                    p = copy.deepcopy(plan)
                    del sub(p)[k]
                    plan, got, ok = self.attempt(plan, got, p)
                    if ok:
                        continue
                    val = sub(plan).get(k)
                    if isinstance(val, dict):
                        for kk in sorted(set(val) - {'cred'}):
                            p = copy.deepcopy(plan)
                            del sub(p)[k][kk]
                            plan, got, _ = self.attempt(plan, got, p)
                    elif isinstance(val, list) and k in ('tamper',):
                        for n in range(len(val) - 1, -1, -1):
                            p = copy.deepcopy(plan)
                            del sub(p)[k][n]
                            plan, got, _ = self.attempt(plan, got, p)
                if self.left <= 0:
                    return plan, got
        return plan, got

    def world(self, plan, got):
        w = plan.get('world') or {}
        txt = json.dumps(plan['ops'])
        for grp in sorted(w):
            if isinstance(w[grp], dict):
                for k in sorted(w[grp]):
                    if '"%s"' % k not in txt:
                        p = copy.deepcopy(plan)
                        del p['world'][grp][k]
                        plan, got, _ = self.attempt(plan, got, p)
            elif grp == 'scribble':
                p = copy.deepcopy(plan)
                del p['world'][grp]
                plan, got, _ = self.attempt(plan, got, p)
        return plan, got
