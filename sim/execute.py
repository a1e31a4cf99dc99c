"""Runs plans in forked children of a pristine process (the library imported, never called).

Every plan starts in a fresh fork; every simulated crash-restart continues in another fresh fork, so
nothing the library keeps in memory survives; isolation re-executions each get their own fork."""
import gc
import mmap
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

CPU_S = 20
WALL_S = 120
MEM = 4 << 30


class HarnessError(Exception):
    pass


_shared = None


def _shm():
    global _shared
    if _shared is None:
        _shared = mmap.mmap(-1, 64)
    return _shared


def mark(op, inside):
    m = _shm()
    m[0:4] = (op & 0xffffffff).to_bytes(4, 'big')
    m[4] = inside


def forked(fn, cpu=CPU_S):
    """-> ('ok', value) | ('sig', n, op) when killed inside library code; HarnessError otherwise."""
    m = _shm()
    m[0:8] = b'\0' * 8
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                out = ('ok', fn())
            except BaseException:     # noqa: B902
                out = ('err', traceback.format_exc())
            data = pickle.dumps(out, 4)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + (1 << 20)])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + WALL_S
    killed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        ok, _, _ = select.select([r], [], [], left)
        if not ok:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if killed:
        raise HarnessError('a run exceeded the wall limit')
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        op, inside = int.from_bytes(m[0:4], 'big'), m[4]
        if inside and sig in (signal.SIGXCPU, signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
                              signal.SIGILL):
            return ('sig', sig, op)
        raise HarnessError('a run was killed by signal %d outside library code' % sig)
    data = b''.join(chunks)
    if not data:
        raise HarnessError('a run ended without a result')
    out = pickle.loads(data)
    if out[0] == 'err':
        raise HarnessError(out[1])
    return out


def world_class(plan):
    k = plan.get('kind', 'lib')
    if k == 'lib':
        from sim.world import World
        return World
    if k == 'app':
        from sim.appworld import AppWorld
        return AppWorld
    if k == 'codec':
        from sim.codecworld import CodecWorld
        return CodecWorld
    if k == 'build':
        from sim.buildworld import BuildWorld
        return BuildWorld
    raise HarnessError('unknown kind of plan ' + k)


def execute(plan, cover=False):
    """-> dict(violations, stats, states, log, switches, cover)"""
    cls = world_class(plan)
    blob = [None]
    restarts = 0
    while True:
        def go():
            gc.disable()
            if blob[0] is None:
                w = cls(plan, cover=set() if cover else None)
            else:
                w = pickle.loads(blob[0])
            w.mark = mark
            if w.run() == 'restart':
                return ('restart', pickle.dumps(w, 4))
            return ('end', w.result())
        out = forked(go)
        if out[0] == 'sig':
            return {'violations': [{'tags': ['C10'], 'op': out[2], 'call': None,
                                    'what': 'handling a response killed the process (signal %d)' % out[1]}],
                    'stats': {'killed': 1}, 'states': set(), 'log': [], 'cover': set(), 'switches': {},
                    'calls': 0, 't': 0, 'sched': set()}
        kind, val = out[1]
        if kind == 'end':
            break
        blob[0] = val
        restarts += 1
    res = val
    for spec in res.pop('solo', []):
        from sim.world import run_solo, solo_violation
        o = forked(lambda: run_solo(spec))
        res['stats']['solo'] = res['stats'].get('solo', 0) + 1
        if o[0] == 'sig':
            continue
        v = solo_violation(spec, o[1])
        if v:
            res['violations'].append(v)
    return res
