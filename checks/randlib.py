"""Random draws as solver variables (both modes): stand-ins for random and numpy.random."""
import random as _random

import numpy as np

from symx.binio import ModShim
from symx.sched import Sched


class Draws:
    """Every draw may give every value it can give; the total number is limited."""

    def __init__(self, ctx, limit=50, geometric=3, on_limit=None):
        self.ctx, self.n, self.limit, self.geo, self.on_limit = ctx, 0, limit, geometric, on_limit
        self.log = []

    def _tick(self):
        self.n += 1
        if self.n > self.limit:
            if self.on_limit:
                self.on_limit()
            self.ctx.assume(False)

    def randint(self, a, b):
        if b < a:
            raise ValueError("empty range for randint")
        self._tick()
        v = self.ctx.pick("randint", a, b)
        self.log.append(("int", v, b - a + 1))
        return v

    def randrange(self, a, b=None):
        return self.randint(0, a - 1) if b is None else self.randint(a, b - 1)

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self.randint(0, len(seq) - 1)]

    def choices(self, seq, weights=None, *, cum_weights=None, k=1):
        return [self.choice(seq) for _ in range(k)]

    def sample(self, population, k):
        if isinstance(population, (set, frozenset, dict)):
            raise TypeError("Population must be a sequence")
        p = list(population)
        if not 0 <= k <= len(p):
            raise ValueError("Sample larger than population or is negative")
        out = []
        for _ in range(k):
            self._tick()
            out.append(p.pop(self.ctx.pick("sample", 0, len(p) - 1)))
        self.log.append(("sample", list(out), list(population)))
        return out

    def shuffle(self, x):
        x[:] = self.sample(x, len(x))

    def random(self):
        self._tick()
        return self.ctx.choice("random", [0.0, 0.25, 0.5, 0.75, 0.999])

    def geometric(self, p, size=None):
        self._tick()
        if size is not None:
            return np.array([self.geometric(p) for _ in range(size)])
        return self.ctx.pick("geometric", 1, self.geo)

    def install(self):
        r = ModShim(_random, randint=self.randint, randrange=self.randrange, choice=self.choice, choices=self.choices, sample=self.sample, shuffle=self.shuffle, random=self.random)
        nr = ModShim(np.random, geometric=self.geometric, randint=lambda a, b=None: self.randrange(a, b), choice=lambda a: self.choice(a), random=self.random)
        Sched(self.ctx, 0).install({_random: r, np: ModShim(np, random=nr), np.random: nr, _random.randint: self.randint, _random.sample: self.sample, _random.choice: self.choice})
        return self
