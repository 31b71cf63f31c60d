"""numpy / math seen by the code under test: real functions on concrete data, symbolic
implementations when an argument carries a proxy."""
from __future__ import annotations

import math
import types

import numpy as np

from . import core
from .core import (EngineGap, SymBool, SymInt, SymReal, ite, is_special, is_sym, mkbool, sym_and,
                   sym_exp, sym_log, sym_not, sym_or, sym_round_real, sym_sqrt)


def has_sym(v, depth=3):
    if is_sym(v):
        return True
    t = type(v)
    if t.__name__ == "SymTensor":
        return True
    if depth <= 0:
        return False
    if t in (list, tuple, set):
        return any(has_sym(x, depth - 1) for x in v)
    if t is dict:
        return any(has_sym(x, depth - 1) for x in v.values())
    if t is np.ndarray and v.dtype == object:
        return any(is_sym(x) for x in v.flat)
    return False


def obj(v):
    """object ndarray (0-d for scalars)."""
    if isinstance(v, np.ndarray):
        return v.astype(object) if v.dtype != object else v
    if is_sym(v):
        a = np.empty((), dtype=object)
        a[()] = v
        return a
    if type(v).__name__ == "SymTensor":
        return v.a
    if isinstance(v, (list, tuple)):
        return _stack([obj(x) for x in v])
    if type(v).__module__.startswith("pandas"):
        return np.asarray(v, dtype=object)
    a = np.empty((), dtype=object)
    a[()] = v.item() if hasattr(v, "item") and getattr(v, "ndim", 1) == 0 else v
    return a


def _stack(xs):
    if not xs:
        return np.empty((0,), dtype=object)
    shape = xs[0].shape
    out = np.empty((len(xs), *shape), dtype=object)
    for i, x in enumerate(xs):
        out[i] = x if shape else x[()]
    return out


def out(a):
    """unwrap 0-d object arrays to scalars."""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a[()]
    return a


def ew(f, *args):
    """broadcast elementwise python function over object arrays."""
    arrs = [obj(a) for a in args]
    b = np.broadcast(*arrs) if len(arrs) > 1 else None
    if b is None:
        src = arrs[0]
        r = np.empty(src.shape, dtype=object)
        it = np.ndindex(*src.shape)
        for i in it:
            r[i] = f(src[i])
        return out(r)
    arrs = [np.broadcast_to(a, b.shape) for a in arrs]
    r = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape):
        r[i] = f(*[a[i] for a in arrs])
    return out(r)


def num(v):
    return v.item() if hasattr(v, "item") and not is_sym(v) else v


def _div(a, b):
    a, b = num(a), num(b)
    if not is_sym(b) and b == 0:
        if is_sym(a):
            if bool(a > 0):
                return math.inf
            if bool(a < 0):
                return -math.inf
            return math.nan
        return math.nan if a == 0 or (isinstance(a, float) and math.isnan(a)) else math.copysign(math.inf, a)
    if is_sym(b) and bool(b == 0):
        return _div(a, 0)
    return a / b


def _isnan(x):
    if is_sym(x):
        return False
    try:
        return math.isnan(x)
    except TypeError:
        return x is None or x != x


def _sign(x):
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def _log(x):
    if is_sym(x):
        return sym_log(x, "np")
    if x == 0:
        return -math.inf
    if x < 0 or x != x:
        return math.nan
    if math.isinf(x):
        return x
    return sym_log(x)


def _exp(x):
    if is_sym(x) or not is_special(x):
        return sym_exp(x)
    return math.exp(x)


def _eq(a, b):
    return a == b


def _close(a, b, rtol=1e-5, atol=1e-8):
    a, b = num(a), num(b)
    if not is_sym(a) and not is_sym(b):
        return bool(np.isclose(a, b, rtol=rtol, atol=atol))
    if is_special(a) or is_special(b):
        return False
    d = abs(a - b)
    return d <= atol + rtol * abs(b)


def _bmin(a, b):
    if is_special(a) or is_special(b):
        return a if bool(a <= b) else b
    return core.smin(a, b) if (is_sym(a) or is_sym(b)) else min(a, b)


def _bmax(a, b):
    if is_special(a) or is_special(b):
        return a if bool(a >= b) else b
    return core.smax(a, b) if (is_sym(a) or is_sym(b)) else max(a, b)


def _clip1(x, lo, hi):
    if lo is not None:
        x = _bmax(x, lo)
    if hi is not None:
        x = _bmin(x, hi)
    return x


def _floor(x):
    if is_sym(x):
        return x.floor()
    return math.floor(x) * 1.0 if not is_special(x) else x


def _ceil(x):
    if is_sym(x):
        return x.ceil()
    return math.ceil(x) * 1.0 if not is_special(x) else x


def _rint(x):
    if is_sym(x):
        return sym_round_real(x)
    return float(np.rint(x))


def _f(x):
    if is_sym(x) and isinstance(x, (SymInt, SymBool)):
        return core.mkreal(x.as_real())
    if is_sym(x):
        return x
    return float(x)


UF = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": _div, "true_divide": _div, "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b, "mod": lambda a, b: a % b, "power": core.sym_pow,
    "float_power": core.sym_pow,
    "negative": lambda a: -a, "positive": lambda a: a, "absolute": abs, "abs": abs, "fabs": abs,
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b, "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b, "equal": _eq, "not_equal": lambda a, b: sym_not(_eq(a, b)),
    "log": _log, "exp": _exp, "log2": lambda x: _log(x) / math.log(2),
    "log10": lambda x: _log(x) / math.log(10), "log1p": lambda x: _log(x + 1),
    "expm1": lambda x: _exp(x) - 1,
    "sqrt": lambda x: sym_sqrt(x) if is_sym(x) else math.sqrt(x), "square": lambda x: x * x,
    "floor": _floor, "ceil": _ceil, "rint": _rint,
    "trunc": lambda x: x.trunc() if is_sym(x) else float(math.trunc(x)),
    "isnan": _isnan, "isfinite": lambda x: True if is_sym(x) else math.isfinite(x),
    "isinf": lambda x: False if is_sym(x) else math.isinf(x),
    "maximum": _bmax, "minimum": _bmin, "fmax": _bmax, "fmin": _bmin, "sign": _sign,
    "logical_and": lambda a, b: sym_and(a, b), "logical_or": lambda a, b: sym_or(a, b),
    "logical_not": sym_not, "bitwise_and": lambda a, b: a & b, "bitwise_or": lambda a, b: a | b,
    "invert": lambda a: ~a if is_sym(a) else (not a if isinstance(a, (bool, np.bool_)) else ~a),
    "reciprocal": lambda a: _div(1.0, a),
}


def values(a):
    """plain values of an array; symbolic entries of an operation that is not modelled become one solution each (flagged)"""
    out = a.copy()
    at = [i for i in np.ndindex(*a.shape) if is_sym(a[i])]
    if at:
        for i, v in zip(at, core.eng().concretize_all([a[i].z for i in at])):
            out[i] = v
    return out


def plain(x):
    """an argument for numpy itself"""
    if is_sym(x):
        return values(obj(x)).item()
    if isinstance(x, np.ndarray) and x.dtype == object or type(x).__name__ == "SymTensor":
        a = values(obj(x))
        kinds = {type(v) for v in a.flat}
        return a.astype(bool) if kinds == {bool} else a.astype(float) if kinds <= {int, float, bool, np.float64, np.int64} and float in kinds or kinds == {np.float64} \
            else a.astype(int) if kinds <= {int, np.int64} and kinds else a
    if type(x) in (list, tuple):
        return type(x)(plain(v) for v in x)
    return x


def ufunc(uf, method, inputs, kwargs):
    name = uf.__name__
    if name not in UF:
        return getattr(uf, method)(*[plain(x) for x in inputs], **{k: plain(x) for k, x in kwargs.items()})
    f = UF[name]
    if method == "__call__":
        return ew(f, *inputs)
    a = obj(inputs[0])
    if method == "reduce":
        axis = kwargs.get("axis", 0)
        return _reduce(f, a, axis)
    if method == "accumulate":
        r = np.empty(a.shape, dtype=object)
        acc = None
        for i in range(a.shape[0]):
            acc = a[i] if acc is None else ew(f, acc, a[i])
            r[i] = acc
        return r
    raise EngineGap(f"ufunc method {method}")


def _reduce(f, a, axis):
    a = obj(a)
    if axis is None:
        xs = list(a.flat)
        acc = xs[0]
        for x in xs[1:]:
            acc = f(acc, x)
        return acc
    a = np.moveaxis(a, axis, 0)
    acc = a[0]
    for i in range(1, a.shape[0]):
        acc = ew(f, acc, a[i])
    return out(acc) if isinstance(acc, np.ndarray) else acc


def _argbest(a, axis, better):
    a = obj(a)
    if axis is None or a.ndim == 1:
        xs = list(a.flat)
        bi = 0
        for i in range(1, len(xs)):
            if bool(better(xs[i], xs[bi])):
                bi = i
        return bi
    a = np.moveaxis(a, axis, -1)
    r = np.empty(a.shape[:-1], dtype=np.int64)
    for i in np.ndindex(*a.shape[:-1]):
        r[i] = _argbest(a[i], None, better)
    return r


def _skipnan(f):
    def g(a, axis=None, **k):
        a = obj(a)
        idx = [i for i, x in enumerate(a.flat) if not _isnan(x)]
        if not idx:
            raise ValueError("All-NaN slice encountered")
        xs = np.empty(len(idx), dtype=object)
        for j, i in enumerate(idx):
            xs[j] = a.flat[i]
        return idx[f(xs, None)]
    return g


def _sum(a, axis=None, **k):
    a = obj(a)
    if a.size == 0:
        return 0
    return _reduce(lambda x, y: x + y, a, axis)


def _mean(a, axis=None, **k):
    a = obj(a)
    n = a.size if axis is None else a.shape[axis]
    s = _sum(a, axis)
    return ew(lambda x: x / n, s) if isinstance(s, np.ndarray) else s / n


def argsort_obj(a, axis=-1, descending=False):
    a = obj(a)
    if a.ndim == 1:
        import functools

        def cmp(i, j):
            x, y = a[i], a[j]
            if bool(x < y):
                return 1 if descending else -1
            if bool(y < x):
                return -1 if descending else 1
            return 0
        return np.array(sorted(range(len(a)), key=functools.cmp_to_key(cmp)), dtype=np.int64)
    a2 = np.moveaxis(a, axis, -1)
    r = np.empty(a2.shape, dtype=np.int64)
    for i in np.ndindex(*a2.shape[:-1]):
        r[i] = argsort_obj(a2[i], descending=descending)
    return np.moveaxis(r, -1, axis)


def _quantile(a, q, **k):
    xs = obj(a)[argsort_obj(obj(a).reshape(-1))]
    n = len(xs)
    pos = q * (n - 1)
    lo = math.floor(pos)
    hi = min(lo + 1, n - 1)
    return xs[lo] + (xs[hi] - xs[lo]) * (pos - lo)


def _linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    n = int(num)
    div = (n - 1) if endpoint else n
    r = np.empty(n, dtype=object)
    for i in range(n):
        r[i] = a + (b - a) * core.Fraction(i, div) if div else a
    if endpoint and n > 1:
        r[-1] = _f(b)
    if dtype is not None and np.issubdtype(np.dtype(dtype), np.integer):
        for i in range(n):
            r[i] = r[i].__trunc__() if is_sym(r[i]) else int(r[i])
    return r


def _unique(a, **k):
    if k:
        raise EngineGap("np.unique kwargs")
    xs = list(obj(a).flat)
    res = []
    for i in argsort_obj(np.array(xs, dtype=object)):
        if not res or not bool(res[-1] == xs[i]):
            res.append(xs[i])
    return obj(res)


def _array(x, dtype=None, **k):
    a = obj(x)
    return np.array(a, dtype=object)


def _where(c, a=None, b=None):
    if a is None:
        raise EngineGap("np.where 1-arg")

    def f(c, x, y):
        try:
            return ite(c, x, y)
        except EngineGap:
            return x if bool(c) else y
    return ew(f, c, a, b)


def _round(x, decimals=0, **k):
    if decimals == 0:
        return ew(_rint, x)
    return ew(lambda v: round(v, decimals), x)


def _interp_gap(name):
    def g(*a, **k):
        raise EngineGap(name)
    return g


FN = {
    "clip": lambda a, a_min=None, a_max=None, **k: ew(_clip1, a, a_min, a_max) if (a_min is not None and a_max is not None)
    else ew(lambda x: _clip1(x, a_min, a_max), a),
    "array": _array, "asarray": _array, "atleast_1d": lambda a: np.atleast_1d(obj(a)),
    "isclose": lambda a, b, rtol=1e-5, atol=1e-8, **k: ew(lambda x, y: _close(x, y, rtol, atol), a, b),
    "allclose": lambda a, b, rtol=1e-5, atol=1e-8, **k: sym_and(*obj(ew(lambda x, y: _close(x, y, rtol, atol), a, b)).flat),
    "sum": _sum, "mean": _mean, "average": _mean,
    "prod": lambda a, axis=None, **k: _reduce(lambda x, y: x * y, a, axis),
    "max": lambda a, axis=None, **k: _reduce(_bmax, a, axis), "amax": lambda a, axis=None, **k: _reduce(_bmax, a, axis),
    "min": lambda a, axis=None, **k: _reduce(_bmin, a, axis), "amin": lambda a, axis=None, **k: _reduce(_bmin, a, axis),
    "argmin": lambda a, axis=None, **k: _argbest(a, axis, lambda x, y: x < y),
    "argmax": lambda a, axis=None, **k: _argbest(a, axis, lambda x, y: x > y),
    "argsort": lambda a, axis=-1, **k: argsort_obj(a, axis),
    "sort": lambda a, axis=-1, **k: obj(a)[argsort_obj(a)],
    "cumsum": lambda a, axis=None, **k: ufunc(np.add, "accumulate", (obj(a).reshape(-1) if axis is None else a,), {}),
    "linspace": _linspace, "unique": _unique, "where": _where, "round": _round, "around": _round,
    "quantile": _quantile, "percentile": lambda a, q, **k: _quantile(a, q / 100),
    "median": lambda a, **k: _quantile(a, 0.5),
    "any": lambda a, **k: sym_or(*obj(a).flat), "all": lambda a, **k: sym_and(*obj(a).flat),
    "isscalar": lambda x: True, "ndim": lambda x: 0 if is_sym(x) else obj(x).ndim,
    "size": lambda x: 1 if is_sym(x) else obj(x).size, "shape": lambda x: () if is_sym(x) else obj(x).shape,
    "array_equal": lambda a, b, **k: (obj(a).shape == obj(b).shape) and sym_and(*obj(ew(_eq, a, b)).flat),
    "concatenate": lambda xs, axis=0, **k: np.concatenate([obj(x) for x in xs], axis=axis),
    "stack": lambda xs, axis=0, **k: np.stack([obj(x) for x in xs], axis=axis),
    "nan_to_num": lambda x, **k: x,
    "isin": lambda a, b, **k: ew(lambda x: sym_or(*[x == y for y in obj(b).flat]), a),
    "diff": lambda a, **k: obj(a)[1:] - obj(a)[:-1],
}
FN["nanargmin"] = _skipnan(FN["argmin"])
FN["nanargmax"] = _skipnan(FN["argmax"])
FN["nanmin"] = lambda a, **k: _reduce(_bmin, obj([x for x in obj(a).flat if not _isnan(x)]), None)
FN["nanmax"] = lambda a, **k: _reduce(_bmax, obj([x for x in obj(a).flat if not _isnan(x)]), None)


def array_function(func, args, kwargs):
    name = func.__name__
    if name in FN:
        return FN[name](*args, **kwargs)
    func = getattr(func, "_sx_real", func)
    return func(*[plain(x) for x in args], **{k: plain(x) for k, x in kwargs.items()})


# ------------------------------------------------------------------ module shims


MATH = {
    "log": lambda x, base=None: sym_log(x) if base is None else sym_log(x) / sym_log(base),
    "log2": lambda x: sym_log(x) / math.log(2), "log10": lambda x: sym_log(x) / math.log(10),
    "log1p": lambda x: sym_log(x + 1),
    "exp": sym_exp, "sqrt": sym_sqrt, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
    "isnan": lambda x: False, "isinf": lambda x: False, "isfinite": lambda x: True,
    "pow": core.sym_pow, "fabs": abs,
    "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: _misclose(a, b, rel_tol, abs_tol),
    "prod": lambda xs, start=1: _prod(xs, start), "fsum": sum,
    "copysign": lambda a, b: ite(b >= 0, abs(a), -abs(a)) if is_sym(b) else (abs(a) if b >= 0 else -abs(a)),
    "modf": lambda x: (x - math.trunc(x), math.trunc(x)),
}


def _misclose(a, b, rt, at):
    if is_special(a) or is_special(b):
        return False
    d = abs(a - b)
    m = _bmax(abs(a), abs(b))
    return sym_or(d <= rt * m, d <= at)


def _prod(xs, start):
    for x in xs:
        start = start * x
    return start


class ModShim(types.ModuleType):
    """Forwards to a real module; callables in ``table`` get a symbolic path."""

    def __init__(self, real, table=None, override=None, wrap_all=False):
        super().__init__(real.__name__)
        d = object.__getattribute__(self, "__dict__")
        d["_sx_real"] = real
        d["_sx_table"] = table or {}
        d["_sx_override"] = override or {}
        d["_sx_cache"] = {}
        d["_sx_wrap_all"] = wrap_all

    def __getattr__(self, name):
        d = object.__getattribute__(self, "__dict__")
        if name in d["_sx_cache"]:
            return d["_sx_cache"][name]
        ov = d["_sx_override"]
        if name in ov:
            return ov[name]
        v = getattr(d["_sx_real"], name)
        if name in d["_sx_table"]:
            f = d["_sx_table"][name]
            v = _wrapped(v, f)
        elif d["_sx_wrap_all"] and isinstance(v, (types.FunctionType, types.BuiltinFunctionType)):
            v = _gapped(v, name)
        else:
            return v
        d["_sx_cache"][name] = v
        return v


def _wrapped(real, f):
    def w(*a, **k):
        if core.ENG is not None and (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            return f(*a, **k)
        return real(*a, **k)
    w.__name__ = getattr(real, "__name__", "w")
    w._sx_real = real
    return w


def _gapped(real, name):
    """not modelled: run the real function (proxies concretise themselves, flagged lossy)."""
    return real


def _ufwrap(real):
    class W:
        """callable stand-in for a ufunc"""
        _sx_real = real

        def __call__(self, *a, **k):
            if core.ENG is not None and any(has_sym(x) for x in a):
                return ufunc(real, "__call__", a, k)
            if core.ENG is not None:
                # a column became an object array because of symbolic entries elsewhere
                a = tuple(x.astype(float) if isinstance(x, np.ndarray) and x.dtype == object and x.size and
                          all(type(v) in (int, float, bool, np.float64, np.int64) for v in x.flat) else x for x in a)
            return real(*a, **k)

        def reduce(self, a, axis=0, **k):
            if core.ENG is not None and has_sym(a):
                return ufunc(real, "reduce", (a,), {"axis": axis})
            return real.reduce(a, axis=axis, **k)

        def accumulate(self, a, **k):
            if core.ENG is not None and has_sym(a):
                return ufunc(real, "accumulate", (a,), k)
            return real.accumulate(a, **k)

        def __getattr__(self, n):
            return getattr(real, n)
    return W()


def make_np(override):
    ov = dict(override)
    for n in UF:
        r = getattr(np, n, None)
        if isinstance(r, np.ufunc):
            ov[n] = _ufwrap(r)
    return ModShim(np, FN, ov)


def make_math():
    return ModShim(math, MATH)
