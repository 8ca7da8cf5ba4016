"""Seam for randomness: numpy's and the standard library's random functions are replaced by a
stream that the plan decides, with a bounded number of hostile draws before it turns fair.

plan: {"seed", "menu": [floats in [0,1)], "p": share of draws taken from the menu,
       "ints": "fair"|"low"|"high"|"same"|"ends", "hostile": how many draws may be hostile,
       "limit": how many draws before liveness counts as lost}"""
import random as pyrandom

import numpy as np

from .core import Inapplicable, StepLimit


class Scripted(np.random.RandomState):
    def __init__(self, plan, ctx):
        np.random.RandomState.__init__(self, plan["seed"] & 0xFFFFFFFF)
        self.fair = np.random.RandomState((plan["seed"] ^ 0x5DEECE66) & 0xFFFFFFFF)
        self.menu = plan.get("menu") or []
        self.p = plan.get("p", 0.0)
        self.ints = plan.get("ints", "fair")
        self.hostile = plan.get("hostile", 0)
        self.limit = plan.get("limit", 10 ** 7)
        self.ctx = ctx
        self.n = 0
        self.rows = 0
        self.row_limit = None
        self.last = None

    def seed(self, *a, **k):
        self.ctx.count("reseed calls")

    def _tick(self):
        self.n += 1
        if self.n > self.limit:
            raise StepLimit(f"{self.n} random draws")

    def u(self):
        self._tick()
        if self.hostile > 0 and self.menu:
            self.hostile -= 1
            if self.fair.random_sample() < self.p:
                self.ctx.count("fault:hostile draw")
                return self.menu[self.fair.randint(len(self.menu))]
        return float(self.fair.random_sample())

    def i(self, lo, hi):
        """One integer in [lo, hi)."""
        self._tick()
        if hi <= lo:
            raise ValueError("low >= high")
        if self.hostile > 0 and self.ints != "fair":
            self.hostile -= 1
            c = self.fair.random_sample()
            v = None
            if self.ints == "low" and c < 0.6:
                v = lo
            elif self.ints == "high" and c < 0.6:
                v = hi - 1
            elif self.ints == "ends" and c < 0.7:
                v = lo if c < 0.35 else hi - 1
            elif self.ints == "same" and c < 0.6 and self.last is not None and lo <= self.last < hi:
                v = self.last
            elif self.ints == "next" and c < 0.7 and self.last is not None:
                v = lo + (self.last + 1 - lo) % (hi - lo)
            if v is not None:
                self.ctx.count("fault:hostile draw")
                self.last = v
                return v
        v = int(self.fair.randint(lo, hi))
        self.last = v
        return v

    def _many(self, size, f):
        if size is None:
            return f()
        n = int(np.prod(size))
        return np.array([f() for _ in range(n)]).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many(size, lambda: low + (high - low) * self.u())

    def random_sample(self, size=None):
        return self._many(size, self.u)

    def random(self, size=None):
        return self._many(size, self.u)

    ranf = sample = random_sample

    def rand(self, *shape):
        return self._many(shape or None, self.u)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        r = self._many(size, lambda: self.i(int(low), int(high)))
        return np.int64(r) if size is None else r.astype(np.int64)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + (1 if endpoint else 0), size)

    def choice(self, a, size=None, replace=True, p=None):
        seq = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if not replace:
            k = 1 if size is None else int(np.prod(size))
            left = list(range(len(seq)))
            got = [seq[left.pop(self.i(0, len(left)))] for _ in range(k)]
            return got[0] if size is None else np.array(got).reshape(size)
        if p is None:
            return self._many(size, lambda: seq[self.i(0, len(seq))])
        cum = np.cumsum(p) / np.sum(p)
        return self._many(size, lambda: seq[int(np.searchsorted(cum, self.u(), side="right"))])

    def permutation(self, x):
        seq = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        self.shuffle(seq)
        return seq

    def shuffle(self, x):
        for k in range(len(x) - 1, 0, -1):
            j = self.i(0, k + 1)
            x[k], x[j] = x[j], x[k]

    def dirichlet(self, alpha, size=None):
        alpha = np.asarray(alpha, dtype=float)
        k = 1 if size is None else int(np.prod(size))
        rows = []
        for _ in range(k):
            self._tick()
            self.rows += 1
            if self.row_limit is not None and self.rows > self.row_limit:
                raise Inapplicable("tables too large to simulate")
            if self.hostile > 0 and self.menu and self.fair.random_sample() < self.p:
                self.hostile -= 1
                self.ctx.count("fault:hostile draw")
                row = np.zeros(len(alpha))
                row[self.fair.randint(len(alpha))] = 1.0
                if self.fair.random_sample() < 0.5:
                    row = np.full(len(alpha), 1e-300)
                    row[self.fair.randint(len(alpha))] = 1.0
                rows.append(row)
            else:
                rows.append(self.fair.dirichlet(alpha))
        return rows[0] if size is None else np.array(rows)


NAMES = ["uniform", "random", "random_sample", "ranf", "sample", "rand", "randint", "choice", "permutation",
         "shuffle", "seed", "dirichlet"]
PYNAMES = {"random": "u", "seed": "seed"}


class scripted_randomness:
    """Installs a scripted stream for the duration of a with block."""

    def __init__(self, plan, ctx):
        self.state = Scripted(plan, ctx)

    def __enter__(self):
        s = self.state
        self._np = {n: getattr(np.random, n) for n in NAMES}
        self._cls = {n: getattr(np.random, n) for n in ("RandomState", "default_rng")}
        for n in NAMES:
            setattr(np.random, n, getattr(s, n))
        for n in self._cls:
            setattr(np.random, n, lambda *a, **k: s)
        self._py = {n: getattr(pyrandom, n) for n in ("random", "randint", "randrange", "uniform", "choice", "shuffle", "seed")}
        pyrandom.random = s.u
        pyrandom.randint = lambda a, b: s.i(a, b + 1)
        pyrandom.randrange = lambda a, b=None: s.i(0, a) if b is None else s.i(a, b)
        pyrandom.uniform = lambda a, b: a + (b - a) * s.u()
        pyrandom.choice = lambda seq: seq[s.i(0, len(seq))]
        pyrandom.shuffle = s.shuffle
        pyrandom.seed = s.seed
        import scipy.stats
        self._dir = scipy.stats.dirichlet._random_state
        scipy.stats.dirichlet._random_state = s
        return s

    def __exit__(self, *a):
        for n, f in list(self._np.items()) + list(self._cls.items()):
            setattr(np.random, n, f)
        for n, f in self._py.items():
            setattr(pyrandom, n, f)
        import scipy.stats
        scipy.stats.dirichlet._random_state = self._dir
        return False
