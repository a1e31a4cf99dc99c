"""Deterministic control of the code under test: line-level tracing, step budget, injected
interrupts, and a baton-passing thread scheduler (exactly one simulated thread runs at a time and
the scheduler decides at every traced line, lock operation and storage call who runs next)."""
import _thread
import ast
import dis
import sys
import threading as _threading
import time as _time

_real_alloc = _thread.allocate_lock
_get_ident = _thread.get_ident
_real_sleep = _time.sleep


class SimHang(BaseException):
    """Step budget exceeded."""


class SimDeadlock(BaseException):
    """All simulated threads are blocked."""


class SimKill(BaseException):
    """Stand-in for a cancellation exception of an unknown framework (greenlet kill, task cancel)."""


class SimCrash(BaseException):
    """The simulated process dies here."""


INTERRUPTS = {
    'SimCrash': SimCrash,
    'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit,
    'SimKill': SimKill, 'GeneratorExit': GeneratorExit, 'TimeoutError': TimeoutError,
    'OSError': OSError, 'RuntimeError': RuntimeError, 'RecursionError': RecursionError,
}
KILLS = ('KeyboardInterrupt', 'SystemExit', 'SimKill', 'GeneratorExit')

PREFIXES = ('/repo/webauthn_rp', '/repo/examples')
BUDGET = 400000

_watch_cache = {}


def _watched(fn):
    w = _watch_cache.get(fn)
    if w is None:
        w = _watch_cache[fn] = fn.startswith(PREFIXES)
    return w


_L, _C, _S = (dis.opmap[n] for n in ('LOAD_CONST', 'CALL', 'SWAP'))
_P, _W = dis.opmap['PUSH_EXC_INFO'], dis.opmap['WITH_EXCEPT_START']
_final_cache = {}
_exit_cache = {}


def _final_lines(fn):
    """Lines inside `finally` blocks of a file."""
    r = _final_cache.get(fn)
    if r is None:
        r = _final_cache[fn] = set()
        try:
            with open(fn, encoding='utf-8') as f:
                t = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            t = None
        for n in ast.walk(t) if t is not None else ():
            for b in getattr(n, 'finalbody', None) or ():
                r.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
    return r


def cleaning(frame):
    """Is the frame about to leave a `with` block, or inside a `finally` block? The tracer can raise there, but the
    interpreter does not deliver asynchronous exceptions between the end of a block and its clean-up, so that
    injecting there would blame code for not doing what no code can do."""
    code, i = frame.f_code, frame.f_lasti
    r = _exit_cache.get((code, i))
    if r is None:
        ops = code.co_code[i:i + 10:2]
        if ops[:1] == bytes([_S]):
            ops = ops[1:]
        else:
            ops = ops[:4]
        r = ops == bytes([_L, _L, _L, _C]) or ops[:2] == bytes([_P, _W])
        _exit_cache[code, i] = r
    return r or frame.f_lineno in _final_lines(code.co_filename)


class Guard:
    """Traces one call: counts lines, optionally injects one interrupt, yields to a scheduler."""

    def __init__(self, budget=BUDGET, interrupt=None, sched=None, cover=None):
        self.budget = budget
        self.n = 0
        self.rets = 0
        self.intr_at = interrupt[0] if interrupt else None
        self.intr_exc = INTERRUPTS[interrupt[1]] if interrupt else None
        self.fired = None
        self.on_fire = None
        self.sched = sched
        self.cover = cover

    def glob(self, frame, event, arg):
        if _watched(frame.f_code.co_filename):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            n = self.n
            if self.cover is not None:
                self.cover.add((frame.f_code.co_filename, frame.f_lineno))
            if n > self.budget:
                raise SimHang('more than %d lines' % self.budget)
            if n == self.intr_at and cleaning(frame):
                self.intr_at += 1
            if n == self.intr_at:
                self.fired = (frame.f_code.co_filename, frame.f_lineno)
                if self.on_fire:
                    self.on_fire()
                raise self.intr_exc('injected at line %d' % n)
            if self.sched is not None:
                self.sched.point('line')
        elif event == 'return' and self.intr_at is not None and self.intr_at < 0:
            # injections as a function is left: what it did stays done
            self.rets += 1
            if self.rets == -self.intr_at:
                self.fired = (frame.f_code.co_filename, frame.f_lineno)
                if self.on_fire:
                    self.on_fire()
                raise self.intr_exc('injected at return %d' % self.rets)
        return self.local

    def call(self, fn):
        """Run fn under the tracer in the current thread."""
        old = sys.gettrace()
        sys.settrace(self.glob)
        try:
            return fn()
        finally:
            sys.settrace(old)


# ------------------------------------------------------------------ scheduler

CURRENT = None       # the running Scheduler: a batch's, or MAIN
MAIN = None
BGS = []             # threads started by the code under test
_BGID = {}
_WORKERS = []
DUTY = {}            # thread -> what it works for
_real_start = _thread.start_new_thread
DRAIN = 20000


def begin():
    """A new simulated process."""
    global CURRENT, MAIN
    del BGS[:], _WORKERS[:]
    _BGID.clear()
    DUTY.clear()
    MAIN = CURRENT = Main()


def worker():
    """Index of the request the current thread works for, in the running batch; None outside batches."""
    s = CURRENT
    if s is None or s is MAIN:
        return None
    i = s.tids.get(_get_ident())
    if i is None:
        b = _BGID.get(_get_ident())
        i = b.parent if b is not None and b.sched is s else None
    return i


class Never:
    """Something that does not become free."""
    owner = 'nobody'


NEVER = Never()


class Part:
    """A participant: a request's thread, the main thread, or a thread started by the code under test."""

    def __init__(self):
        self.sem = _real_alloc()
        self.sem.acquire()
        self.done = False
        self.waiting = None         # lock it is blocked on
        self.deadline = None        # until when

    def ready(self):
        if self.done:
            return False
        if self.waiting is None or self.waiting.owner is None:
            return True
        return self.deadline is not None and self.deadline <= env_mono()


def env_mono():
    return _time.monotonic()


def env_advance(dt):
    from sim import env
    env.advance(dt)


class Bg(Part):
    def __init__(self, fn, args, kw):
        Part.__init__(self)
        self.fn, self.args, self.kw = fn, args, kw
        self.sched, self.parent, self.duty = CURRENT, worker(), DUTY.get(_get_ident())
        self.sentinels = []

    def body(self):
        self.sem.acquire()
        _BGID[_get_ident()] = self
        DUTY[_get_ident()] = self.duty
        try:
            Guard(sched=RUNNING).call(lambda: self.fn(*self.args, **self.kw))
        except BaseException:      # noqa: B902 - a thread that dies of an exception
            pass
        for x in self.sentinels:
            x.count, x.owner = 0, None
        self.done = True
        _BGID.pop(_get_ident(), None)
        DUTY.pop(_get_ident(), None)
        CURRENT.leave()


class RUNNING:
    """Whichever scheduler is running."""
    @staticmethod
    def point(kind):
        c = CURRENT
        if c is not None:
            c.point(kind)


def sim_start(fn, args, kwargs=None):
    """_thread.start_new_thread of the code under test."""
    if CURRENT is None:
        return _real_start(fn, args, kwargs or {})
    b = Bg(fn, args, kwargs or {})
    BGS.append(b)
    return _real_start(b.body, ())


def sim_sentinel():
    """_thread._set_sentinel: a lock released when the current thread ends."""
    x = SimLock()
    b = _BGID.get(_get_ident())
    if b is not None:
        b.sentinels.append(x)
    return x


def sim_sleep(s):
    c = CURRENT
    if s < 0:
        raise ValueError('sleep length must be non-negative')
    if c is None or c.me() is None:
        env_advance(s)
    else:
        c.block(NEVER, env_mono() + s)


class Scheduler:
    """chooser(step, current, runnable, kind) -> index of the thread to run next. Indices up to n are the
    batch's requests, from n on threads started by the code under test."""

    def __init__(self, thunks, chooser, base=0):
        self.thunks = thunks
        self.base = base
        self.n = len(thunks)
        self.chooser = chooser
        self.step = 0
        self.cur = None
        self.parts = [Part() for _ in thunks]
        self.main = _real_alloc()
        self.main.acquire()
        self.results = [None] * self.n
        self.switches = []                 # [step, to]
        self.tids = {}
        self.dead = False
        self.draining = 0
        self.yields = 0

    def run(self):
        """Runs the thunks, each on its own long-lived thread (the i-th always on the same)."""
        global CURRENT
        prev = CURRENT
        if MAIN is None:
            begin()
        CURRENT = self
        try:
            while len(_WORKERS) < self.base + self.n:
                w = Worker()
                _WORKERS.append(w)
                _real_start(w.loop, ())
            for i in range(self.n):
                w = _WORKERS[self.base + i]
                w.task = (self, i)
                w.sem.release()
            first = self._choose('start')
            self.cur = first
            self.part(first).sem.release()
            self.main.acquire()
        finally:
            CURRENT = prev
        return self.results

    def _body(self, i):
        p = self.parts[i]
        p.sem.acquire()
        self.tids[_get_ident()] = i
        try:
            if self.dead:
                raise SimDeadlock()
            self.results[i] = ('ok', self.thunks[i]())
        except BaseException as e:     # noqa: B902 - harness boundary
            self.results[i] = ('exc', e)
        p.done = True
        if all(x.done for x in self.parts):
            self.main.release()
        else:
            self.leave()

    def part(self, i):
        return self.parts[i] if i < self.n else BGS[i - self.n]

    def runnable(self):
        r = [i for i, p in enumerate(self.parts) if p.ready()]
        if BGS:
            r += [self.n + k for k, p in enumerate(BGS) if p.ready()]
        return r

    def _choose(self, kind):
        r = self.runnable()
        if self.draining:
            self.draining -= 1
            r = r if self.draining else []
            if not r:
                self.draining = 0
                return 0
        if not r:
            # everybody waits: time passes until the first of them has waited long enough
            t = [(p.deadline, i) for i, p in enumerate(self.parts + BGS) if not p.done and p.deadline is not None]
            if not t:
                return None
            d, i = min(t)
            env_advance(max(0.0, d - env_mono()))
            self.part(i).deadline = -1.0
            r = [i]
        self.step += 1
        c = self.chooser(self.step, self.cur, r, kind)
        if c not in r:
            c = r[0]
        if c != self.cur:
            self.switches.append([self.step, c])
        return c

    def leave(self):
        """The current thread is finished; somebody else goes on."""
        nxt = self._choose('exit')
        if nxt is None:
            self._deadlock()
        else:
            self.cur = nxt
            self.part(nxt).sem.release()

    def _deadlock(self):
        """Nobody can run: end the requests with SimDeadlock."""
        self.dead = True
        for i, p in enumerate(self.parts):
            if not p.done:
                self.cur = i
                p.sem.release()
                return

    def me(self):
        i = self.tids.get(_get_ident())
        if i is None and BGS:
            b = _BGID.get(_get_ident())
            if b is not None:
                return self.n + BGS.index(b)
        return i

    def point(self, kind):
        if self.n == 1 and not BGS:
            return
        me = self.me()
        if me is None:
            return
        self.yields += 1
        nxt = self._choose(kind)
        if nxt is None or nxt == me:
            return
        self._switch(me, nxt)

    def _switch(self, me, nxt):
        self.cur = nxt
        p = self.part(me)
        self.part(nxt).sem.release()
        p.sem.acquire()
        c = CURRENT         # a thread of the code under test may find itself in another batch
        if c.dead and c is self and me < self.n:
            p.waiting = p.deadline = None
            self.died()
            raise SimDeadlock()

    def died(self):
        pass

    def block(self, lock, deadline=None):
        """Wait until lock is free for the current thread, or the deadline has passed. -> is it free?"""
        me = self.me()
        p = self.part(me)
        p.waiting, p.deadline = lock, deadline
        while True:
            c = CURRENT
            me = c.me()
            nxt = c._choose('block')
            if nxt is None:
                if me < c.n:
                    p.waiting = p.deadline = None
                    c.dead = True
                    c.died()
                    raise SimDeadlock('all threads blocked')
                c._deadlock()
                p.sem.acquire()
            elif nxt != me:
                c._switch(me, nxt)
            if lock.owner is None:
                break
            if p.deadline is not None and p.deadline <= env_mono():
                break
        p.waiting = p.deadline = None
        return lock.owner is None


class Worker:
    def __init__(self):
        self.sem = _real_alloc()
        self.sem.acquire()
        self.task = None

    def loop(self):
        while True:
            self.sem.acquire()
            s, i = self.task
            self.task = None
            s._body(i)


class Main(Scheduler):
    """Outside batches: the main thread and threads started by the code under test."""

    def __init__(self):
        Scheduler.__init__(self, [None], explicit_chooser([]))
        self.tids[_get_ident()] = 0
        self.cur = 0

    def died(self):
        self.dead = False

    def drain(self):
        """Let the threads of the code under test go on until they all wait."""
        if not any(p.ready() for p in BGS):
            return
        self.cur = 0
        p = self.parts[0]
        p.waiting = NEVER
        self.draining = DRAIN
        nxt = self._choose('block')
        if nxt:
            self.cur = nxt
            self.part(nxt).sem.release()
            p.sem.acquire()
        self.draining = 0
        self.dead = False
        p.waiting = None


class SimLock:
    """threading.Lock/RLock replacement under the scheduler's control."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = _get_ident()
        if s is not None:
            tr = sys.gettrace()
            sys.settrace(None)
            try:
                s.point('lock')
            finally:
                sys.settrace(tr)
        if self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            if s is None:
                raise SimDeadlock('lock never released')
            tr = sys.gettrace()
            sys.settrace(None)
            try:
                s = CURRENT
                if s.me() is None:
                    raise SimDeadlock('lock never released')
                if not s.block(self, None if timeout < 0 else env_mono() + timeout):
                    return False
            finally:
                sys.settrace(tr)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.count == 0:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire
    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0

    def __repr__(self):
        return '<%s %s object>' % ('locked' if self.owner else 'unlocked', type(self).__name__)


class SimRLock(SimLock):
    reentrant = True

    def release(self):
        if self.owner != _get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        SimLock.release(self)

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == _get_ident()

    def _recursion_count(self):
        return self.count if self._is_owned() else 0

    def _release_save(self):
        if not self._is_owned():
            raise RuntimeError('cannot release un-acquired lock')
        n, self.count, self.owner = self.count, 0, None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n


def duty(*set_to):
    """What the current thread works for."""
    if set_to:
        DUTY[_get_ident()], = set_to
    return DUTY.get(_get_ident())


def took(duty):
    """The current thread has taken work that somebody else left in a queue."""
    me = _get_ident()
    if me in _BGID:
        DUTY[me] = duty


def patch_queues(queue):
    """A thread that takes an item out of a queue works for whoever put it in."""
    class SimpleQueue(queue._PySimpleQueue):
        def put(self, item, block=True, timeout=None):
            super().put((DUTY.get(_get_ident()), item))

        def get(self, block=True, timeout=None):
            duty, item = super().get(block, timeout)
            took(duty)
            return item

    def put(self, item):
        self.queue.append(item)
        self.__dict__.setdefault('duties', []).append(DUTY.get(_get_ident()))

    def get(self):
        d = self.__dict__.get('duties')
        if d and len(d) == len(self.queue):
            took(d.pop(0))
        return self.queue.popleft()
    queue.SimpleQueue = SimpleQueue
    queue.Queue._put, queue.Queue._get = put, get


def patch_threading():
    """Locks, queues and threads created by the code under test become simulated. Call before importing it."""
    import queue
    _threading.Lock = SimLock
    _threading.RLock = SimRLock
    _threading._allocate_lock = SimLock
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    _thread.RLock = SimRLock
    _thread.start_new_thread = _thread.start_new = _threading._start_new_thread = sim_start
    _thread._set_sentinel = _threading._set_sentinel = sim_sentinel
    patch_queues(queue)
    from sim import env
    env.on_sleep(sim_sleep)


def seeded_chooser(rng, p=None, points=None):
    """p: switch probability per step; points: set of steps at which to switch (PCT-like)."""
    def choose(step, cur, runnable, kind):
        if cur not in runnable or kind in ('start', 'exit', 'block'):
            return runnable[rng.randrange(len(runnable))]
        if points is not None:
            if step in points:
                others = [r for r in runnable if r != cur]
                if others:
                    return others[rng.randrange(len(others))]
            return cur
        q = p
        if kind in ('get', 'put', 'lock', 'db'):
            q = max(p, 0.4)
        if len(runnable) > 1 and rng.random() < q:
            others = [r for r in runnable if r != cur]
            return others[rng.randrange(len(others))]
        return cur
    return choose


def explicit_chooser(switches):
    """Replay of recorded switches: {step: tid}; otherwise stay (or lowest runnable)."""
    d = {s: t for s, t in switches}

    def choose(step, cur, runnable, kind):
        t = d.get(step)
        if t is not None and t in runnable:
            return t
        if cur in runnable:
            return cur
        return runnable[0]
    return choose
