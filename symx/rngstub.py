"""Nondeterministic stand-ins for every randomness source the code under test can reach.

Each draw returns an *arbitrary* value of the documented range; under the engine it is a fresh
solver variable, in replay it is the value from the counterexample.  Names are drawn in call
order, so a replay sees the same sequence.
"""
from __future__ import annotations

import math
import random as _random
import types

import numpy as np

from .core import is_sym, SymReal


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(int(s) for s in size)
    return (int(size),)


class Draws:
    """The environment's randomness, backed by a ctx."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.max_gauss = 8   # paths with more normal draws are cut (stated bound)
        self.n_gauss = 0
        self.truncated = []   # (arguments, operation, value, result) of every truncated normal

    # primitive draws
    def u01(self, incl=False):
        return self.ctx.real("rng.u", 0, 1, hi_open=not incl)

    def unif(self, lo, hi):
        u = self.ctx.real("rng.u", 0, 1)
        return lo + (hi - lo) * u

    def rint(self, lo, hi):
        """integer in [lo, hi)"""
        return self.ctx.int("rng.i", lo, hi - 1)

    def index(self, n, p=None):
        opts = list(range(int(n)))
        if p is not None:
            opts2 = []
            for i, q in enumerate(p):
                if is_sym(q):
                    opts2.append(i)
                elif q > 0:
                    opts2.append(i)
            opts = opts2
        i = self.ctx.choice("rng.k", opts)
        if p is not None and is_sym(p[i]):
            self.ctx.assume(p[i] > 0)
        return i

    def gauss(self, mu=0.0, sd=1.0):
        self.n_gauss += 1
        if self.n_gauss > (self.max_gauss if self.ctx.symbolic else 4 * self.max_gauss + 20):
            self.ctx.assume(False)
        z = self.ctx.real("rng.z", -6, 6)
        return mu + sd * z

    def fill(self, size, f):
        s = _shape(size)
        if s is None:
            return f()
        a = np.empty(s, dtype=object)
        for i in np.ndindex(*s):
            a[i] = f()
        if not any(is_sym(x) for x in a.flat):
            return np.array(a.tolist()).reshape(s)
        return a

    def perm(self, n):
        rest = list(range(n))
        r = []
        while rest:
            r.append(rest.pop(self.index(len(rest))))
        return r


class NpRandom:
    """np.random module / RandomState / Generator look-alike."""

    def __init__(self, d):
        self.d = d

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.d.fill(size, lambda: self.d.unif(low, high))

    def random(self, size=None):
        return self.d.fill(size, self.d.u01)
    random_sample = random
    sample = random
    ranf = random

    def rand(self, *s):
        return self.d.fill(s or None, self.d.u01)

    def randn(self, *s):
        return self.d.fill(s or None, self.d.gauss)

    def standard_normal(self, size=None):
        return self.d.fill(size, self.d.gauss)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self.d.fill(size, lambda: self.d.gauss(loc, scale))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self.d.fill(size, lambda: self.d.rint(low, high))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        return self.d.fill(size, lambda: self.d.rint(low, high))

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer)) or (is_sym(a) and not isinstance(a, SymReal)):
            pool = list(range(int(a)))
        else:
            pool = list(a)
        if p is not None:
            p = list(p)
        if size is None:
            v = pool[self.d.index(len(pool), p)]
            if isinstance(v, str):
                return np.str_(v)
            return v
        s = _shape(size)
        n = int(np.prod(s)) if s else 1
        idx = list(range(len(pool)))
        out = []
        for _ in range(n):
            j = self.d.index(len(idx), [p[i] for i in idx] if p is not None else None)
            out.append(pool[idx[j]])
            if not replace:
                idx.pop(j)
        if any(is_sym(x) for x in out):
            r = np.empty(len(out), dtype=object)
            for i, x in enumerate(out):
                r[i] = x
            return r.reshape(s)
        return np.array(out).reshape(s)

    def permutation(self, x):
        if isinstance(x, int):
            return np.array(self.d.perm(x))
        x = list(x)
        return np.array([x[i] for i in self.d.perm(len(x))], dtype=object if any(is_sym(v) for v in x) else None)

    def shuffle(self, x):
        o = [x[i] for i in self.d.perm(len(x))]
        for i, v in enumerate(o):
            x[i] = v

    def beta(self, a, b, size=None):
        return self.d.fill(size, self.d.u01)

    def seed(self, *a):
        return None

    def get_state(self, *a, **k):
        return np.random.get_state(*a, **k)

    def set_state(self, *a, **k):
        return np.random.set_state(*a, **k)

    def RandomState(self, *a, **k):  # noqa: N802
        return NpRandom(self.d)

    def default_rng(self, *a, **k):
        return NpRandom(self.d)

    Generator = np.random.Generator


class PyRandom:
    def __init__(self, d):
        self.d = d

    def random(self):
        return self.d.u01()

    def uniform(self, a, b):
        return self.d.unif(a, b)

    def randint(self, a, b):
        return self.d.rint(a, b + 1)

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        if step == 1:
            return self.d.rint(a, b)
        return list(range(a, b, step))[self.d.index(len(range(a, b, step)))]

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self.d.index(len(seq))]

    def choices(self, pop, weights=None, *, cum_weights=None, k=1):
        return [pop[self.d.index(len(pop), weights)] for _ in range(k)]

    def sample(self, pop, k, **kw):
        pop = list(pop)
        return [pop.pop(self.d.index(len(pop))) for _ in range(k)]

    def shuffle(self, x):
        o = [x[i] for i in self.d.perm(len(x))]
        x[:] = o

    def gauss(self, mu=0.0, sigma=1.0):
        return self.d.gauss(mu, sigma)
    normalvariate = gauss

    def seed(self, *a):
        return None

    def getstate(self):
        return _random.getstate()

    def setstate(self, s):
        return _random.setstate(s)

    def Random(self, *a):  # noqa: N802
        return PyRandom(self.d)


class TruncNorm:
    """scipy.stats.truncnorm frozen distribution: rvs in [loc+a*scale, loc+b*scale]."""

    def __init__(self, d, a, b, loc=0.0, scale=1.0):
        self._d, self.lo, self.hi = d, loc + a * scale, loc + b * scale
        self.args = (a, b, loc, scale)

    @property
    def d(self):
        # (the code under test may keep a distribution from one run to the next)
        return ACTIVE or self._d

    def rvs(self, size=None, random_state=None):
        r = self.d.fill(size, lambda: self.d.unif(self.lo, self.hi))
        self.d.truncated.append((self.args, "rvs", r, None))
        return r

    def pdf(self, x):
        r = self.d.ctx.real(f"density{len(self.d.truncated)}", 0, 100)
        self.d.truncated.append((self.args, "pdf", x, r))
        return r


class TorchRandom:
    def __init__(self, d):
        self.d = d

    def _t(self, shape, f, dtype):
        import torch
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = f()
        from . import tshim
        if self.d.ctx.symbolic:
            return tshim.SymTensor(a, dtype)
        return torch.tensor(a.tolist(), dtype=dtype).reshape(shape)

    @staticmethod
    def _sh(a):
        if len(a) == 1 and isinstance(a[0], (tuple, list)):
            return tuple(int(x) for x in a[0])
        return tuple(int(x) for x in a)

    def rand(self, *s, dtype=None, size=None, **k):
        import torch
        return self._t(self._sh(s if size is None else (size,)), self.d.u01, dtype or torch.float32)

    def randn(self, *s, dtype=None, size=None, **k):
        import torch
        return self._t(self._sh(s if size is None else (size,)), self.d.gauss, dtype or torch.float32)

    def rand_like(self, t, dtype=None, **k):
        return self._t(tuple(t.shape), self.d.u01, dtype or t.dtype)

    def randint(self, low=0, high=None, size=None, dtype=None, **k):
        import torch
        if size is None or isinstance(high, (tuple, list)):
            low, high, size = 0, low, high if size is None else size
        return self._t(tuple(size), lambda: self.d.rint(low, high), dtype or torch.int64)

    def randperm(self, n, **k):
        import torch
        return torch.tensor(self.d.perm(int(n)))

    def multinomial(self, p, num_samples, replacement=False, **k):
        import torch
        ps = p.tolist() if hasattr(p, "tolist") else list(p)
        idx = list(range(len(ps)))
        out = []
        for _ in range(int(num_samples)):
            j = self.d.index(len(idx), [ps[i] for i in idx])
            out.append(idx[j])
            if not replacement:
                idx.pop(j)
        return torch.tensor(out, dtype=torch.int64)


class SobolEngine:
    """torch.quasirandom.SobolEngine: arbitrary points of the unit cube (without upper ends)."""

    def __init__(self, dimension, scramble=False, seed=None):
        self.dimension = int(dimension)

    def draw(self, n=1, out=None, dtype=None):
        import torch
        d = ACTIVE
        return TorchRandom(d)._t((int(n), self.dimension), d.u01, dtype or torch.get_default_dtype())


# ------------------------------------------------------------------ installation


ACTIVE = None  # Draws or None


def install(ctx):
    """Make all randomness arbitrary for the rest of this path / replay."""
    global ACTIVE
    d = Draws(ctx)
    prev = ACTIVE
    ACTIVE = d

    def undo():
        global ACTIVE
        ACTIVE = prev
    ctx.on_exit(undo)
    import torch
    old = torch.quasirandom.SobolEngine
    torch.quasirandom.SobolEngine = SobolEngine
    ctx.on_exit(lambda: setattr(torch.quasirandom, "SobolEngine", old))
    if not ctx.symbolic:
        patch_real(ctx, d)
    return d


def patch_real(ctx, d):
    import torch
    import scipy.stats
    npr, pyr, tr = NpRandom(d), PyRandom(d), TorchRandom(d)

    def sub(mod, name, val):
        if hasattr(mod, name):
            old = getattr(mod, name)
            setattr(mod, name, val)
            ctx.on_exit(lambda: setattr(mod, name, old))
    for n in ("uniform", "random", "random_sample", "rand", "randn", "standard_normal", "normal", "randint",
              "choice", "permutation", "shuffle", "beta", "RandomState", "default_rng"):
        sub(np.random, n, getattr(npr, n))
    for n in ("random", "uniform", "randint", "randrange", "choice", "choices", "sample", "shuffle", "gauss",
              "normalvariate", "Random"):
        sub(_random, n, getattr(pyr, n))
    for n in ("rand", "randn", "rand_like", "randint", "randperm", "multinomial"):
        sub(torch, n, getattr(tr, n))
    sub(scipy.stats, "truncnorm", lambda *a, **k: TruncNorm(d, *a, **k))


class _Dispatch(types.ModuleType):
    """np.random / random / scipy.stats seen by the code under test."""

    def __init__(self, real, cls, only=None):
        super().__init__(real.__name__)
        self.__dict__["_r"] = real
        self.__dict__["_c"] = cls
        self.__dict__["_only"] = only

    def __getattr__(self, n):
        c = self.__dict__["_c"]
        if ACTIVE is not None and hasattr(c, n) and not n.startswith("_"):
            return getattr(c(ACTIVE), n)
        return getattr(self.__dict__["_r"], n)


class StatsNS:
    def __init__(self, d):
        self.d = d

    def truncnorm(self, *a, **k):
        return TruncNorm(self.d, *a, **k)


def torch_override():
    import torch
    ov = {}
    for n in ("rand", "randn", "rand_like", "randint", "randperm", "multinomial"):
        ov[n] = _tfn(n, getattr(torch, n))
    return ov


def _tfn(n, real):
    def f(*a, **k):
        if ACTIVE is not None:
            return getattr(TorchRandom(ACTIVE), n)(*a, **k)
        return real(*a, **k)
    return f
