"""Clock and randomness seams: inside a simulated run, time and random bytes come from the simulator."""
import datetime as _dt
import os
import random
import time as _t

from sim.core import H, stream

EPOCH = 1_700_000_000.0
_real = {n: getattr(_t, n) for n in ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter',
                                     'perf_counter_ns', 'sleep')}
_real_urandom = os.urandom
_state = {'now': None, 'seed': None, 'n': 0, 'onsleep': None, 'onadvance': None, 'onread': None, 'mono': None}


def active():
    return _state['now'] is not None


def start(seed, now=0.0):
    _state.update(now=EPOCH + now, seed=seed, n=0)
    random.seed(str(seed))


def set_now(t):
    _state['now'] = EPOCH + t


def set_mono(t):
    """Monotonic clocks: independent of the wall clock, restarting with each simulated boot."""
    _state['mono'] = t


def set_counter(n):
    _state['n'] = n


def counter():
    return _state['n']


def on_sleep(f):
    _state['onsleep'] = f


def on_advance(f):
    _state['onadvance'] = f


def advance(dt):
    """Time passes while the code under test waits."""
    if _state['now'] is None:
        return
    f = _state['onadvance']
    if f is not None:
        f(dt)
        return
    _state['now'] += dt
    if _state['mono'] is not None:
        _state['mono'] += dt


def on_read(f):
    _state['onread'] = f


def _now():
    f = _state['onread']
    if f is not None:
        return EPOCH + f()
    return _state['now']


def _wrap(name, f):
    mono = name.startswith(('mono', 'perf'))

    def fake():
        if _state['now'] is None:
            return _real[name]()
        if mono and _state['mono'] is not None:
            return f(_state['mono'])
        return f(_now())
    fake.__name__ = name
    return fake


def _sleep(s):
    if _state['now'] is None:
        return _real['sleep'](s)
    if _state['onsleep']:
        _state['onsleep'](s)
    else:
        advance(s)


def urandom(n):
    if _state['seed'] is None:
        return _real_urandom(n)
    _state['n'] += 1
    b = stream(n, 'urandom', _state['seed'], _state['n'])
    if n >= 16:
        # values that come up rarely come up often here; the rest of the bytes keeps them apart
        e = H('urandom-ends', _state['seed'], _state['n'])
        k = 1 + e[1] % 4
        if e[0] < 24:
            b = b[:-k] + bytes([0, 0, 0xff, 0x20][e[2] % 4:][:1]) * k
        elif e[0] < 48:
            b = bytes([0, 0, 0xff, 0x20][e[2] % 4:][:1]) * k + b[k:]
    return b


class SimDatetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_t.time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_t.time(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(_t.time())


def install():
    for n in ('time', 'monotonic', 'perf_counter'):
        setattr(_t, n, _wrap(n, lambda x: x))
    for n in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
        setattr(_t, n, _wrap(n, lambda x: int(round(x * 1e6)) * 1000))
    _t.sleep = _sleep
    os.urandom = urandom
    random._urandom = urandom
