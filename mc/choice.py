"""Controlled randomness: every draw becomes a choice point.

`outcomes(func)` runs `func()` once per combination of draws: numpy's global
generator is replaced by one that takes each draw from a finite grid of its
support, and the combinations are enumerated depth first (stateless search).
"""
import contextlib
import random

import numpy as np

UNIT = (0.0, 0.35, 1.0)          # quantiles of a uniform draw
NORMAL = (-2.0, 0.0, 0.5)        # standard normal values


class Chooser:

    def __init__(self, unit=UNIT, normal=NORMAL, limit=None):
        self.unit, self.normal, self.limit = unit, normal, limit
        self.trail = []          # [index, number of options]
        self.pos = 0
        self.calls = []

    def pick(self, options):
        if self.limit is not None and self.pos >= self.limit:
            # beyond the bound: a fixed, varied sequence
            k = (7*self.pos + 3) % len(options)
            self.pos += 1
            return options[k]
        if self.pos == len(self.trail):
            self.trail.append([0, len(options)])
        k = self.trail[self.pos][0]
        self.pos += 1
        return options[k]

    def next(self):
        """Advance to the next combination; False when exhausted."""
        self.pos = 0
        self.calls = []
        while self.trail:
            self.trail[-1][0] += 1
            if self.trail[-1][0] < self.trail[-1][1]:
                return True
            self.trail.pop()
        return False

    def many(self, options, size):
        if size is None:
            return self.pick(options)
        shape = (size,) if np.isscalar(size) else tuple(size)
        n = int(np.prod(shape))
        return np.array([self.pick(options) for _ in range(n)]).reshape(
            shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        self.calls.append(('uniform', low, high, size))
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        if np.all(np.asarray(low) == np.asarray(high)):
            # degenerate range: no choice
            return float(low) if size is None else np.zeros(size) + low
        q = self.many(self.unit, size)
        return low + (np.asarray(high) - low)*q if size is not None \
            else float(low + (high - low)*q)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def rand(self, *shape):
        return self.uniform(0.0, 1.0, shape if shape else None)

    def normal_(self, loc=0.0, scale=1.0, size=None):
        self.calls.append(('normal', loc, scale, size))
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        if np.all(np.asarray(scale) == 0):
            return float(loc) if size is None else np.zeros(size) + loc
        return loc + scale*self.many(self.normal, size)

    def standard_normal(self, size=None):
        return self.normal_(0.0, 1.0, size)

    def randint(self, low, high=None, size=None, dtype=int):
        self.calls.append(('randint', low, high, size))
        if high is None:
            low, high = 0, low
        v = self.many(tuple(range(int(low), int(high))), size)
        return v if size is None else v.astype(int)

    def binomial(self, n, p, size=None):
        self.calls.append(('binomial', n, p, size))
        opts = [k for k in range(int(n) + 1)
                if not (p == 0 and k > 0) and not (p == 1 and k < n)]
        return self.many(tuple(opts), size)

    def choice(self, a, size=None, replace=True, p=None):
        self.calls.append(('choice', a, size))
        opts = tuple(range(a)) if np.isscalar(a) else tuple(a)
        return self.many(opts, size)


@contextlib.contextmanager
def controlled(ch):
    names = {'uniform': ch.uniform, 'random': ch.random, 'rand': ch.rand,
             'random_sample': ch.random, 'normal': ch.normal_,
             'standard_normal': ch.standard_normal,
             'randn': lambda *s: ch.normal_(0.0, 1.0, s if s else None),
             'randint': ch.randint, 'binomial': ch.binomial,
             'choice': ch.choice}
    pnames = {'uniform': lambda a, b: ch.uniform(a, b),
              'random': lambda: ch.uniform(), 'choice': lambda s: ch.choice(
                  list(s)),
              'randint': lambda a, b: ch.randint(a, b + 1),
              'gauss': lambda m=0.0, s=1.0: ch.normal_(m, s),
              'normalvariate': lambda m=0.0, s=1.0: ch.normal_(m, s)}
    old = {k: getattr(np.random, k) for k in names}
    pold = {k: getattr(random, k) for k in pnames}
    try:
        for k, f in names.items():
            setattr(np.random, k, f)
        for k, f in pnames.items():
            setattr(random, k, f)
        yield ch
    finally:
        for k, f in old.items():
            setattr(np.random, k, f)
        for k, f in pold.items():
            setattr(random, k, f)


def outcomes(func, limit=None, unit=UNIT, normal=NORMAL):
    """Yield (choices, result) for every combination of draws."""
    ch = Chooser(unit, normal, limit)
    while True:
        with controlled(ch):
            r = func()
        yield tuple(i for i, _ in ch.trail), r
        if not ch.next():
            return
