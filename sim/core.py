"""Seeds, hashes and small helpers. Everything random in the simulator comes from here."""
import hashlib
import json
import random

REPO = '/repo'


def H(*parts):
    """Deterministic 32-byte hash of a tuple of str/int/bytes."""
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, int):
            p = str(p)
        if isinstance(p, str):
            p = p.encode('utf-8', 'surrogatepass')
        h.update(len(p).to_bytes(4, 'big'))
        h.update(p)
    return h.digest()


def stream(n, *parts):
    """n deterministic bytes."""
    if n <= 32:
        return H(*parts)[:n]
    out = []
    have = 0
    i = 0
    while have < n:
        b = H('stream', i, *parts)
        out.append(b)
        have += len(b)
        i += 1
    return b''.join(out)[:n]


class Rng(random.Random):
    """random.Random seeded from a hash, with a few conveniences."""

    def __init__(self, *parts):
        super().__init__(int.from_bytes(H('rng', *parts), 'big'))

    def p(self, prob):
        return self.random() < prob

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def wpick(self, pairs):
        """pairs: [(weight, value)]"""
        total = sum(w for w, _ in pairs)
        x = self.random() * total
        for w, v in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][1]


def dumps(o):
    return json.dumps(o, sort_keys=True, separators=(',', ':'))


def digest(o):
    return hashlib.sha256(dumps(o).encode()).hexdigest()[:16]
