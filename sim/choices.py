"""Choice streams: every nondeterministic decision of a run is one draw from a named stream.

Value 0 is always the simplest decision (stay on the current thread, no fault, smallest workload), so a run is
described completely by its seed, or - for replay files - by the sparse map of its non-zero decisions.
"""
import random


class Choices:
    def __init__(self, seed, replay=None):
        self.seed = seed
        self.replay = None if replay is None else {k: {int(i): v for i, v in d.items()} for k, d in replay.items()}
        self.pos = {}
        self.rec = {}
        self._rng = {}

    def _next(self, stream):
        p = self.pos.get(stream, 0)
        self.pos[stream] = p + 1
        return p

    def rng(self, stream):
        r = self._rng.get(stream)
        if r is None:
            r = self._rng[stream] = random.Random(f"{self.seed}/{stream}")
        return r

    def choose(self, stream, n):
        """Uniform in [0, n)."""
        p = self._next(stream)
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay.get(stream, {}).get(p, 0) % n
        else:
            v = self.rng(stream).randrange(n)
        if v:
            self.rec.setdefault(stream, {})[p] = v
        return v

    def rare(self, stream, prob, n=2):
        """0 with probability 1-prob, otherwise uniform in [1, n)."""
        p = self._next(stream)
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay.get(stream, {}).get(p, 0) % n
        else:
            r = self.rng(stream)
            v = 0 if r.random() >= prob else (1 if n == 2 else r.randrange(1, n))
        if v:
            self.rec.setdefault(stream, {})[p] = v
        return v

    def pick(self, stream, seq):
        return seq[self.choose(stream, len(seq))]

    def shuffle(self, stream, seq):
        """Seeded shuffle; an all-zero replay leaves the order unchanged."""
        out = list(seq)
        for i in range(len(out) - 1):
            j = i + self.choose(stream, len(out) - i)
            out[i], out[j] = out[j], out[i]
        return out
