"""A small symbolic tensor (numpy object array + dtype tag) and the torch seen by the code
under test.  Concrete tensors stay real torch tensors."""
from __future__ import annotations

import math

import numpy as np
import torch

from . import core, npshim
from .core import EngineGap, SymInt, SymReal, SymBool, is_sym, sym_and, sym_not, sym_or
from .npshim import ModShim, ew, has_sym, obj, out

FLOATS = (torch.float16, torch.bfloat16, torch.float32, torch.float64)
INTS = (torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64)


def is_tensor(v):
    return type(v) is SymTensor or issubclass(type(v), torch.Tensor)


def arr(v):
    if type(v) is SymTensor:
        return v.a
    if issubclass(type(v), torch.Tensor):
        return np.array(v.detach().numpy(), dtype=object) if v.ndim else obj(v.item())
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
        if isinstance(v, (list, tuple)):
            return npshim._stack([arr(x) for x in v])
        return obj(v)
    return obj(v)


def dt(v):
    if type(v) is SymTensor:
        return v.dtype
    if issubclass(type(v), torch.Tensor):
        return v.dtype
    if isinstance(v, (list, tuple)):
        ds = [dt(x) for x in v]
        for d in ds:
            if d in FLOATS:
                return d
        return ds[0] if ds else torch.float32
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return dt(list(v.flat)[:64])
        return torch.from_numpy(v).dtype
    if isinstance(v, bool):
        return torch.bool
    if isinstance(v, int):
        return torch.int64
    return torch.float32


def cast1(x, d):
    if d in FLOATS:
        if is_sym(x):
            return npshim._f(x)
        return float(x)
    if d is torch.bool:
        if is_sym(x):
            return x if isinstance(x, SymBool) else (x != 0)
        return bool(x)
    if is_sym(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return core.mkint(x.as_int())
        return x.__trunc__()
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
        return -(2 ** 63)
    return int(x)


def mk(a, d):
    """Tensor from object array; becomes a real tensor when nothing symbolic is left."""
    a = obj(a)
    if not (core.ENG is not None and getattr(core.ENG, "sym_alloc", False)) and not any(is_sym(x) for x in a.flat):
        try:
            return torch.tensor(a.tolist(), dtype=d).reshape(a.shape)
        except Exception:
            pass
    return SymTensor(a, d)


def promote(*ds):
    order = [torch.bool, *INTS, *FLOATS]
    best = None
    for d in ds:
        if best is None or order.index(d) > order.index(best):
            best = d
    return best


def resdt(op, *vals):
    if op in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "isnan",
              "isinf", "isfinite", "logical_and", "logical_or", "logical_not"):
        return torch.bool
    tens = [dt(v) for v in vals if is_tensor(v)]
    d = promote(*tens) if tens else torch.float32
    scal = [v for v in vals if not is_tensor(v)]
    if d not in FLOATS and any(isinstance(s, float) for s in scal):
        d = torch.float32
    if op in ("true_divide", "log", "exp", "sqrt") and d not in FLOATS:
        d = torch.float32
    if d is torch.bool and op in ("add", "subtract", "multiply", "floor_divide"):
        d = torch.int64
    return d


def op(name, *vals):
    f = npshim.UF[name]
    r = ew(f, *[arr(v) for v in vals])
    d = resdt(name, *vals)
    if d in FLOATS:
        r = ew(lambda x: cast1(x, d), r)
    return mk(r, d)


def _idx(i):
    if type(i) is tuple:
        return tuple(_idx(x) for x in i)
    if type(i) is SymTensor:
        if i.dtype is torch.bool:
            return np.array([bool(x) for x in i.a.flat], dtype=bool).reshape(i.a.shape)
        return np.array([int(x) for x in i.a.flat], dtype=np.int64).reshape(i.a.shape)
    if issubclass(type(i), torch.Tensor):
        return i.numpy()
    if isinstance(i, np.ndarray) and i.dtype == object:
        return np.array([x.__index__() if not isinstance(x, (bool, SymBool)) else bool(x) for x in i.flat]).reshape(i.shape)
    if is_sym(i):
        return i.__index__()
    return i


class Ret(tuple):
    """values, indices named result"""
    @property
    def values(self): return self[0]
    @property
    def indices(self): return self[1]


def _native1(x, name):
    if type(x) is SymTensor:
        return torch.tensor(npshim.values(x.a).tolist(), dtype=x._dtype).reshape(x.a.shape)
    if type(x) is SymReal:
        return npshim.values(obj(x)).item()
    if type(x) in (list, tuple):
        return type(x)(_native1(v, name) for v in x)
    return x


def native(func, name, args, kwargs):
    """torch itself, for whatever the proxies do not model"""
    return func(*[_native1(x, name) for x in args], **{k: _native1(x, name) for k, x in kwargs.items()})


class SymTensor:
    __array_priority__ = 1e10
    __class__ = property(lambda self: torch.Tensor)

    def __init__(self, a, dtype):
        self.a = obj(a)
        self._dtype = dtype

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", str(func))
        kwargs = kwargs or {}
        f = METH.get(name) or TORCH.get(name) or METH.get(name.strip("_"))
        if f is None:
            return native(func, name, args, kwargs)
        return f(*args, **kwargs)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        ins = [x.a if type(x) is SymTensor else x for x in inputs]
        return npshim.ufunc(uf, method, ins, kw)

    def __array__(self, dtype=None):
        return self.a

    dtype = property(lambda s: s._dtype)
    shape = property(lambda s: torch.Size(s.a.shape))
    ndim = property(lambda s: s.a.ndim)
    device = property(lambda s: torch.device("cpu"))
    T = property(lambda s: SymTensor(s.a.T, s._dtype))
    requires_grad = False
    is_cuda = False

    def __len__(self): return self.a.shape[0]
    def __iter__(self):
        for i in range(self.a.shape[0]):
            yield self[i]

    def __getitem__(self, i):
        return mk_keep(self.a[_idx(i)], self._dtype)

    def __setitem__(self, i, v):
        src = arr(v)
        src = obj(ew(lambda x: cast1(x, self._dtype), src))
        if src.ndim == 0:
            src = src[()]
        self.a[_idx(i)] = src

    def __bool__(self):
        if self.a.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(self.a.flat[0])

    def __float__(self): return float(self.a.flat[0])
    def __int__(self): return int(self.a.flat[0])
    def __index__(self): return self.a.flat[0].__index__()
    def __repr__(self): return f"SymTensor({self.a.shape})"
    def __hash__(self): return id(self)

    def __getattr__(self, name):
        f = METH.get(name)
        if f is None and name.endswith("_") and (METH.get(name[:-1]) or TORCH.get(name[:-1])) is not None:
            g = METH.get(name[:-1]) or TORCH[name[:-1]]

            def inplace(*a, **k):
                r = g(self, *a, **k)
                self.a[...] = arr(r)
                return self
            return inplace
        if f is None:
            f = TORCH.get(name)
        if f is None:
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: native(getattr(torch.Tensor, name), name, (self, *a), k)
        return lambda *a, **k: f(self, *a, **k)

    def __deepcopy__(self, memo):
        return SymTensor(self.a.copy(), self._dtype)


def mk_keep(a, d):
    r = SymTensor.__new__(SymTensor)
    if isinstance(a, np.ndarray) and a.dtype == object:
        r.a = a
    else:
        r.a = obj(a)
    r._dtype = d
    return r


for _n, _u in {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "true_divide",
               "floordiv": "floor_divide", "mod": "remainder", "pow": "power"}.items():
    setattr(SymTensor, f"__{_n}__", (lambda u: lambda s, o: op(u, s, o))(_u))
    setattr(SymTensor, f"__r{_n}__", (lambda u: lambda s, o: op(u, o, s))(_u))
for _n, _u in {"lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal",
               "eq": "equal", "ne": "not_equal", "and": "logical_and", "or": "logical_or"}.items():
    setattr(SymTensor, f"__{_n}__", (lambda u: lambda s, o: op(u, s, o))(_u))
SymTensor.__neg__ = lambda s: op("negative", s)
SymTensor.__abs__ = lambda s: op("absolute", s)
SymTensor.__invert__ = lambda s: op("logical_not", s)


def _to(t, *a, **k):
    d = k.get("dtype")
    for x in a:
        if isinstance(x, torch.dtype):
            d = x
        elif is_tensor(x):
            d = dt(x)
    if d is None:
        return t
    return mk(ew(lambda x: cast1(x, d), arr(t)), d)


def _tensor(data, dtype=None, device=None, **k):
    d = dtype or dt(data)
    return mk(obj(ew(lambda x: cast1(x, d), arr(data))).copy(), d)


def _clip(t, min=None, max=None, **k):  # noqa: A002
    lo = min.item() if is_tensor(min) and min.ndim == 0 else min
    hi = max.item() if is_tensor(max) and max.ndim == 0 else max
    d = dt(t)
    if (lo is None or not is_tensor(lo)) and (hi is None or not is_tensor(hi)):
        return mk(ew(lambda x: npshim._clip1(x, lo, hi), arr(t)), d)
    r = arr(t)
    if lo is not None:
        r = ew(npshim._bmax, r, arr(lo))
    if hi is not None:
        r = ew(npshim._bmin, r, arr(hi))
    return mk(r, d)


def _red(f):
    def g(t, dim=None, keepdim=False, dtype=None, **k):
        dim = k.get("axis", dim)
        a = arr(t)
        if a.size == 0 and dim is None:
            return torch.tensor(0, dtype=dtype or dt(t))
        r = npshim._reduce(f, a, dim)
        if dim is not None and keepdim:
            r = np.expand_dims(obj(r), dim)
        return mk(r, dtype or dt(t))
    return g


def _argb(better):
    def g(t, dim=None, keepdim=False, **k):
        a = arr(t)
        return torch.tensor(npshim._argbest(a, dim, better))
    return g


def _minmax(red, argf):
    def g(t, dim=None, keepdim=False, **k):
        if dim is None:
            return red(t)
        if is_tensor(dim):
            return op("minimum" if red is _MIN else "maximum", t, dim)
        return Ret((red(t, dim, keepdim), argf(t, dim, keepdim)))
    return g


_MIN = _red(npshim._bmin)
_MAX = _red(npshim._bmax)
_AMIN = _argb(lambda x, y: x < y)
_AMAX = _argb(lambda x, y: x > y)


def _mean(t, dim=None, keepdim=False, **k):
    a = arr(t)
    n = a.size if dim is None else a.shape[dim]
    return _red(lambda x, y: x + y)(t, dim, keepdim) / n


def _sort(t, dim=-1, descending=False, stable=False, **k):
    a = arr(t)
    i = npshim.argsort_obj(a, dim, descending)
    return Ret((mk(np.take_along_axis(a, i, dim), dt(t)), torch.tensor(i)))


def _argsort(t, dim=-1, descending=False, **k):
    return torch.tensor(npshim.argsort_obj(arr(t), dim, descending))


def _where(c, a=None, b=None):
    d = promote(*[dt(x) for x in (a, b) if is_tensor(x)]) if (is_tensor(a) or is_tensor(b)) else dt([a, b])
    return mk(npshim._where(arr(c), arr(a), arr(b)), d)


def _size(x):
    return x


def _shape(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list, torch.Size)):
        return tuple(int(x) for x in a[0])
    return tuple(int(x) for x in a)


def _full(size, v, dtype=None, **k):
    a = np.empty(tuple(int(s) for s in size) if isinstance(size, (tuple, list)) else (int(size),), dtype=object)
    d = dtype or dt(v)
    vv = cast1(v.item() if is_tensor(v) else v, d)
    for i in np.ndindex(*a.shape):
        a[i] = vv
    return mk(a, d)


def _like(t, dtype=None, **k):
    a = np.empty(t.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        a[i] = 0.0
    d = dtype or dt(t)
    return SymTensor(obj(ew(lambda x: cast1(x, d), a)), d)


def _linspace(a, b, steps, dtype=None, **k):
    d = dtype or torch.float32
    return mk(npshim._linspace(a, b, steps), d)


def _view(t, *s):
    s = _shape(s)
    return mk_keep(arr(t).reshape(s), dt(t))


def _cat(xs, dim=0, **k):
    dim = k.get("axis", dim)
    return mk(np.concatenate([arr(x) for x in xs], axis=dim), promote(*[dt(x) for x in xs]))


def _stack(xs, dim=0, **k):
    return mk(np.stack([arr(x) for x in xs], axis=dim), promote(*[dt(x) for x in xs]))


def _copy_(t, o):
    t.a[...] = arr(o)
    return t


def _unique_rows(a, d, inverse):
    """lexicographically sorted distinct rows"""
    rows, inv = [], []      # rows: sorted list of (row index)
    for i in range(a.shape[0]):
        pos = None
        for n, j in enumerate(rows):
            c = 0
            for x, y in zip(a[i], a[j]):
                if bool(x == y):
                    continue
                c = -1 if bool(x < y) else 1
                break
            if c == 0:
                pos = (n, True)
                break
            if c < 0:
                pos = (n, False)
                break
        if pos is None:
            pos = (len(rows), False)
        n, dup = pos
        if not dup:
            rows.insert(n, i)
            inv = [x + 1 if x >= n else x for x in inv]
        inv.append(n)
    u = mk_keep(a[rows], d)
    return (u, torch.tensor(inv)) if inverse else u


def _unique(t, *a, **k):
    if k.get("dim") == 0 and not k.get("return_counts") and arr(t).ndim == 2:
        return _unique_rows(arr(t), dt(t), k.get("return_inverse"))
    if k.get("dim") is not None or k.get("return_inverse") or k.get("return_counts"):
        raise EngineGap("torch.unique kwargs")
    return mk(npshim._unique(arr(t)), dt(t))


def _squeeze(t, d):
    a = arr(t)
    if d is None:
        return mk_keep(a.squeeze(), dt(t))
    return mk_keep(a.squeeze(d) if a.ndim and a.shape[d] == 1 else a, dt(t))


METH = {
    "clone": lambda t, **k: mk_keep(arr(t).copy(), dt(t)), "detach": lambda t: t, "cpu": lambda t: t,
    "contiguous": lambda t: t, "requires_grad_": lambda t, *a: t,
    "to": _to, "type": lambda t, d: _to(t, d), "double": lambda t: _to(t, torch.float64),
    "float": lambda t: _to(t, torch.float32), "long": lambda t: _to(t, torch.int64),
    "int": lambda t: _to(t, torch.int32), "bool": lambda t: _to(t, torch.bool),
    "type_as": lambda t, o: _to(t, dt(o)),
    "item": lambda t: arr(t).flat[0], "tolist": lambda t: arr(t).tolist(),
    "numpy": lambda t, **k: arr(t), "size": lambda t, d=None: t.shape if d is None else t.shape[d],
    "dim": lambda t: t.ndim, "numel": lambda t: arr(t).size, "nelement": lambda t: arr(t).size,
    "unsqueeze": lambda t, dim: mk_keep(np.expand_dims(arr(t), dim if dim >= 0 else arr(t).ndim + 1 + dim), dt(t)),
    "squeeze": lambda t, dim=None: _squeeze(t, dim),
    "reshape": _view, "view": _view, "flatten": lambda t, *a: mk_keep(arr(t).reshape(-1), dt(t)),
    "expand": lambda t, *s: mk_keep(np.broadcast_to(arr(t), _shape(s)), dt(t)),
    "repeat": lambda t, *s: mk_keep(np.tile(arr(t), _shape(s)), dt(t)),
    "permute": lambda t, *s: mk_keep(arr(t).transpose(_shape(s)), dt(t)),
    "transpose": lambda t, a, b: mk_keep(np.swapaxes(arr(t), a, b), dt(t)),
    "t": lambda t: mk_keep(arr(t).T, dt(t)),
    "copy_": _copy_, "fill_": lambda t, v: _copy_(t, v),
    "new_tensor": lambda t, d, **k: _tensor(d, dtype=k.get("dtype") or dt(t)),
    "is_floating_point": lambda t: dt(t) in FLOATS,
    "index_select": lambda t, dim, idx: mk_keep(np.take(arr(t), _idx(idx), axis=dim), dt(t)),
    "gather": lambda t, dim, idx: mk_keep(np.take_along_axis(arr(t), _idx(idx), dim), dt(t)),
    "split": lambda t, n, dim=0: [mk_keep(x, dt(t)) for x in np.split(arr(t), range(n, arr(t).shape[dim], n), axis=dim)],
    "unbind": lambda t, dim=0: tuple(mk_keep(x, dt(t)) for x in np.moveaxis(arr(t), dim, 0)),
    "get_device": lambda t: -1, "__get__": None,
}
METH = {k: v for k, v in METH.items() if v is not None}

def _nanmedian(t, *a, **k):
    """the lower of the middle values, ignoring nan"""
    if a or k:
        raise EngineGap("nanmedian along a dimension")
    xs = [x for x in arr(t).flat if not npshim._isnan(x)]
    if not xs:
        return mk(obj(float("nan")), dt(t))
    return mk(obj(arr(_sort(mk_keep(npshim._stack([obj(x) for x in xs]), dt(t)))[0]).flat[(len(xs) - 1) // 2]), dt(t))


TORCH = {
    "nanmedian": _nanmedian, "tensor": _tensor, "as_tensor": lambda d, **k: d if type(d) is SymTensor and k.get("dtype") in (None, d.dtype) else _tensor(d, **k),
    "from_numpy": _tensor,
    "clip": _clip, "clamp": _clip, "clamp_min": lambda t, m: _clip(t, m), "clamp_max": lambda t, m: _clip(t, None, m),
    "sum": _red(lambda x, y: x + y), "prod": _red(lambda x, y: x * y), "mean": _mean,
    "min": _minmax(_MIN, _AMIN), "max": _minmax(_MAX, _AMAX), "amin": _MIN, "amax": _MAX,
    "argmin": _AMIN, "argmax": _AMAX, "sort": _sort, "argsort": _argsort,
    "where": _where, "full": _full,
    "full_like": lambda t, v, dtype=None, **k: _full(tuple(t.shape), v, dtype or dt(t)),
    "empty_like": _like, "zeros_like": _like,
    "ones_like": lambda t, dtype=None, **k: _full(tuple(t.shape), 1, dtype or dt(t)),
    "linspace": _linspace, "cat": _cat, "concat": _cat, "concatenate": _cat, "stack": _stack, "hstack": lambda xs: _cat(xs, 0 if arr(xs[0]).ndim == 1 else 1),
    "vstack": lambda xs: _cat([x if arr(x).ndim > 1 else x.unsqueeze(0) for x in xs], 0),
    "any": lambda t, dim=None, **k: mk(sym_or(*arr(t).flat), torch.bool) if dim is None else _red(sym_or)(t, dim),
    "all": lambda t, dim=None, **k: mk(sym_and(*arr(t).flat), torch.bool) if dim is None else _red(sym_and)(t, dim),
    "equal": lambda a, b: a.shape == b.shape and bool(sym_and(*obj(ew(npshim._eq, arr(a), arr(b))).flat)),
    "allclose": lambda a, b, rtol=1e-5, atol=1e-8, **k: bool(sym_and(*obj(ew(lambda x, y: npshim._close(x, y, rtol, atol), arr(a), arr(b))).flat)),
    "isclose": lambda a, b, rtol=1e-5, atol=1e-8, **k: mk(ew(lambda x, y: npshim._close(x, y, rtol, atol), arr(a), arr(b)), torch.bool),
    "nan_to_num": lambda t, nan=0.0, **k: mk(ew(lambda x: nan if npshim._isnan(x) else x, arr(t)), dt(t)),
    "cumsum": lambda t, dim=0, **k: mk(npshim.ufunc(np.add, "accumulate", (arr(t),), {}), dt(t)),
    "unique": _unique, "is_tensor": lambda t: True, "atleast_2d": lambda t: mk_keep(np.atleast_2d(arr(t)), dt(t)),
    "atleast_1d": lambda t: mk_keep(np.atleast_1d(arr(t)), dt(t)),
    "meshgrid": lambda *ts, indexing="ij": tuple(mk_keep(x, dt(ts[0])) for x in np.meshgrid(*[arr(t) for t in ts], indexing=indexing)),
    "numel": lambda t: arr(t).size,
    "isin": lambda a, b, **k: mk(ew(lambda x: sym_or(*[x == y for y in arr(b).flat]), arr(a)), torch.bool),
    "lerp": lambda a, b, w: op("add", a, op("multiply", w, op("subtract", b, a))),
    "norm": None,
}
TORCH = {k: v for k, v in TORCH.items() if v is not None}
for _t, _u in {"add": "add", "sub": "subtract", "subtract": "subtract", "mul": "multiply", "multiply": "multiply",
               "div": "true_divide", "divide": "true_divide", "true_divide": "true_divide", "floor_divide": "floor_divide",
               "remainder": "remainder", "fmod": "remainder", "pow": "power", "neg": "negative", "negative": "negative", "abs": "absolute",
               "lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal", "eq": "equal", "ne": "not_equal",
               "less": "less", "greater": "greater",
               "log": "log", "exp": "exp", "sqrt": "sqrt", "square": "square", "floor": "floor", "ceil": "ceil",
               "round": "rint", "trunc": "trunc", "isnan": "isnan", "isfinite": "isfinite", "isinf": "isinf",
               "maximum": "maximum", "minimum": "minimum", "logical_and": "logical_and", "logical_or": "logical_or",
               "logical_not": "logical_not", "sign": "sign", "log2": "log2", "log10": "log10", "log1p": "log1p", "expm1": "expm1",
               "reciprocal": "reciprocal"}.items():
    TORCH[_t] = (lambda u: lambda *a, **k: op(u, *a))(_u)
# keep integer tensors integral under floor/ceil/round
for _t in ("floor", "ceil", "round", "trunc"):
    TORCH[_t] = (lambda f: lambda t, **k: t if dt(t) not in FLOATS else f(t))(TORCH[_t])

# real-tensor dunder names delivered through __torch_function__
for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "lt", "le", "gt", "ge", "eq", "ne"):
    METH[f"__{_n}__"] = (lambda n: lambda a, b: getattr(SymTensor, f"__{n}__")(a, b))(_n)
for _n in ("add", "sub", "mul", "truediv", "floordiv", "pow"):
    METH[f"__r{_n}__"] = (lambda n: lambda a, b: getattr(SymTensor, f"__r{n}__")(a, b))(_n)
METH["rsub"] = lambda a, b: op("subtract", b, a)
METH["__getitem__"] = lambda t, i: _real_getitem(t, i)
METH["__setitem__"] = lambda t, i, v: _real_setitem(t, i, v)


def _real_getitem(t, i):
    if type(t) is SymTensor:
        return t[i]
    return t[torch.as_tensor(_idx(i)) if not isinstance(i, tuple) else tuple(torch.as_tensor(x) if isinstance(x, np.ndarray) else x for x in _idx(i))]


def _real_setitem(t, i, v):
    # writing proxies into a real tensor: cannot hold them
    raise EngineGap("store of symbolic values into a concrete tensor")


def symbolic_alloc(real):
    """torch.empty/zeros/ones: hand out SymTensors so later symbolic stores work."""
    def f(*size, dtype=None, **k):
        if core.ENG is None or not getattr(core.ENG, "sym_alloc", False):
            return real(*size, dtype=dtype, **k)
        t = real(*size, dtype=dtype, **{x: y for x, y in k.items()})
        if real is torch.empty:
            t = torch.zeros_like(t)
        return SymTensor(np.array(t.numpy(), dtype=object), t.dtype)
    return f


def make_torch(override):
    ov = {"empty": symbolic_alloc(torch.empty), "zeros": symbolic_alloc(torch.zeros),
          "ones": symbolic_alloc(torch.ones)}

    def _empty_like(t, **k):
        if core.ENG is not None and getattr(core.ENG, "sym_alloc", False):
            return _like(t, **k)
        return _like(t, **k) if type(t) is SymTensor else torch.empty_like(t, **k)
    ov["empty_like"] = _empty_like

    def _tensor_alloc(data, *a, **k):
        if core.ENG is None:
            return torch.tensor(data, *a, **k)
        if npshim.has_sym(data):
            return _tensor(data, *a, **k)
        t = torch.tensor(data, *a, **k)
        if getattr(core.ENG, "sym_alloc", False) and t.dtype in FLOATS and t.ndim > 0:
            return SymTensor(np.array(t.tolist(), dtype=object).reshape(t.shape), t.dtype)
        return t
    ov["tensor"] = _tensor_alloc
    ov["zeros_like"] = _empty_like if False else (lambda t, **k: _like(t, **k) if type(t) is SymTensor or (core.ENG is not None and getattr(core.ENG, "sym_alloc", False)) else torch.zeros_like(t, **k))
    ov.update(override)
    return ModShim(torch, TORCH, ov)
