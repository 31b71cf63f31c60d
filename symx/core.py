"""Path-forking symbolic executor over z3.

The code under test is the real Python source (loaded by ``symx.hook``), run by CPython on
proxy values.  Each proxy carries a z3 term; every truth test on one asks z3 which outcomes
are feasible under the current path condition and forks.  Exploration is depth-first by
re-execution.  ``ctx.check`` asks z3 for a value of the inputs on the current path that
falsifies the assertion; a model is turned into concrete inputs and replayed on the plain,
unhooked package by ``symx.replay``.

Number model: Python ``int`` -> z3 Int (exact).  Python ``float`` -> z3 Real (ideal real
arithmetic; rounding, NaN and infinities are outside unless a harness feeds them concretely).
``log``/``exp`` -> one strictly monotone bijection table, instantiated per occurrence.
"""
from __future__ import annotations

import math
import time
from fractions import Fraction

from .z3load import z3

# ------------------------------------------------------------------ control exceptions


class PathAbort(BaseException):
    """The current path is infeasible or cut by an assumption."""


class BudgetExceeded(BaseException):
    pass


class EngineGap(Exception):
    """An operation the proxies do not model."""


ENG = None  # active engine


def eng():
    if ENG is None:
        raise RuntimeError("symbolic value used outside an active exploration")
    return ENG


# ------------------------------------------------------------------ lifting


def _isnum(v):
    import numbers
    return isinstance(v, numbers.Number) or isinstance(v, Sym)


def frac_val(v: float):
    f = Fraction(v)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def is_special(v):
    """inf / nan concrete value."""
    return type(v) is not int and not isinstance(v, Sym) and isinstance(v, (float,)) and (
        math.isinf(v) or math.isnan(v))


def _unnp(v):
    t = type(v)
    if t in (int, float, bool) or issubclass(t, Sym):
        return v
    if t.__module__ == "numpy" and hasattr(v, "item") and getattr(v, "ndim", 1) == 0:
        return v.item()
    if isinstance(v, (int, float)):
        return v
    if t is Fraction:
        return v
    return None


def zint(v):
    if isinstance(v, Sym):
        return v.as_int()
    return z3.IntVal(int(v))


def zreal(v):
    if isinstance(v, Sym):
        return v.as_real()
    if isinstance(v, bool):
        return z3.RealVal(1 if v else 0)
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(f"{v.numerator}/{v.denominator}")
    return frac_val(float(v))


def zbool(v):
    if isinstance(v, SymBool):
        return v.z
    if isinstance(v, Sym):
        return v.as_real() != 0
    if z3.is_expr(v):
        return v
    return z3.BoolVal(bool(v))


class Sym:
    __slots__ = ("z",)
    __array_priority__ = 1e9

    def __init__(self, z):
        object.__setattr__(self, "z", z)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EngineGap("pickling a symbolic value")

    # numpy protocol -----------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import npshim
        return npshim.ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.array_function(func, args, kwargs)

    def item(self):
        return self

    def tolist(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def __bool__(self):
        return eng().branch(self.as_real() != 0)

    def __setattr__(self, k, v):
        raise AttributeError(k)


def _cmp(op, a, b, special):
    """a: Sym ; b anything. special(bfloat)-> bool for inf (nan handled)."""
    if _tensorlike(b):
        from . import tshim
        return tshim.op({"lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal",
                         "eq": "equal", "ne": "not_equal"}[op], a, b)
    b = _unnp(b)
    if b is None:
        return NotImplemented
    if is_special(b):
        if math.isnan(b):
            return op == "ne"
        return special(b)
    if isinstance(a, (SymInt, SymBool)) and (isinstance(b, (int, SymInt, SymBool)) and not (isinstance(b, SymReal))):
        x, y = a.as_int(), zint(b)
    else:
        x, y = a.as_real(), zreal(b)
    e = {"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y,
         "eq": lambda: x == y, "ne": lambda: x != y}[op]()
    return mkbool(e)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkreal(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = e.as_fraction()
        fl = float(f)
        if Fraction(fl) == f:
            return fl
    return SymReal(e)


class SymNum(Sym):
    __slots__ = ()

    def __lt__(self, o):
        return _cmp("lt", self, o, lambda b: b > 0)

    def __le__(self, o):
        return _cmp("le", self, o, lambda b: b > 0)

    def __gt__(self, o):
        return _cmp("gt", self, o, lambda b: b < 0)

    def __ge__(self, o):
        return _cmp("ge", self, o, lambda b: b < 0)

    def __eq__(self, o):
        r = _cmp("eq", self, o, lambda b: False)
        return False if r is NotImplemented and not hasattr(o, "__array__") and not _tensorlike(o) else r

    def __ne__(self, o):
        r = _cmp("ne", self, o, lambda b: True)
        return True if r is NotImplemented and not hasattr(o, "__array__") and not _tensorlike(o) else r

    # arithmetic ----------------------------------------------------------------------
    def _bin(self, o, op, swap=False):
        if _tensorlike(o):
            from . import tshim
            u = {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "true_divide",
                 "floordiv": "floor_divide", "mod": "remainder"}[op]
            return tshim.op(u, o, self) if swap else tshim.op(u, self, o)
        o = _unnp(o)
        if o is None:
            return NotImplemented
        if is_special(o):
            return self._special(o, op, swap)
        a, b = (o, self) if swap else (self, o)
        if op in ("add", "sub", "mul") and _intish(a) and _intish(b):
            x, y = zint(a), zint(b)
            return mkint({"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[op]())
        if op in ("add", "sub", "mul"):
            x, y = zreal(a), zreal(b)
            return mkreal({"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[op]())
        if op == "truediv":
            y = zreal(b)
            if truth(mkbool(y == 0)):
                raise ZeroDivisionError("division by zero")
            return mkreal(zreal(a) / y)
        if op in ("floordiv", "mod"):
            if _intish(a) and _intish(b):
                x, y = zint(a), zint(b)
                if truth(mkbool(y == 0)):
                    raise ZeroDivisionError("integer division or modulo by zero")
                if truth(mkbool(y > 0)):
                    q = x / y  # floor for positive divisor
                else:
                    q = (-x) / (-y)
                return mkint(q if op == "floordiv" else x - q * y)
            x, y = zreal(a), zreal(b)
            if truth(mkbool(y == 0)):
                raise ZeroDivisionError("float floor division by zero")
            q = z3.ToReal(z3.ToInt(x / y))
            return mkreal(q if op == "floordiv" else x - q * y)
        raise EngineGap(op)

    def _special(self, o, op, swap):
        if math.isnan(o):
            return o
        if op == "add":
            return o
        if op == "sub":
            return o if swap else -o
        if op == "mul":
            if self > 0:
                return o
            if self < 0:
                return -o
            return float("nan")
        if op == "truediv":
            if not swap:
                return 0.0
            return o if self > 0 else -o
        raise EngineGap("inf arithmetic " + op)

    def __add__(self, o): return self._bin(o, "add")
    def __radd__(self, o): return self._bin(o, "add", True)
    def __sub__(self, o): return self._bin(o, "sub")
    def __rsub__(self, o): return self._bin(o, "sub", True)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, "mul")
    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, "mul", True)
    def __truediv__(self, o): return self._bin(o, "truediv")
    def __rtruediv__(self, o): return self._bin(o, "truediv", True)
    def __floordiv__(self, o): return self._bin(o, "floordiv")
    def __rfloordiv__(self, o): return self._bin(o, "floordiv", True)
    def __mod__(self, o): return self._bin(o, "mod")
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, "mod", True)
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)
    def __pos__(self): return self

    def __neg__(self):
        return type(self)(z3.simplify(-self.z))

    def __abs__(self):
        return type(self)(z3.simplify(z3.If(self.z >= 0, self.z, -self.z)))

    def __pow__(self, o, mod=None):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    # object-array ufunc hooks
    def log(self): return sym_log(self, "np")
    def exp(self): return sym_exp(self)
    def log1p(self): return sym_log(self + 1, "np")
    def expm1(self): return sym_exp(self) - 1
    def log2(self): return sym_log(self, "np") / math.log(2)
    def log10(self): return sym_log(self, "np") / math.log(10)
    def sqrt(self): return sym_sqrt(self)
    def rint(self): return sym_round_real(self)
    def conjugate(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def __format__(self, spec):
        return str(self)

    def __repr__(self):
        return str(self)


def _tensorlike(o):
    return type(o).__name__ in ("SymTensor", "Tensor", "Parameter")


def _intish(v):
    return isinstance(v, (SymInt, SymBool)) or (isinstance(v, int) and not isinstance(v, SymReal))


class SymInt(SymNum):
    __slots__ = ()
    __class__ = property(lambda self: int)

    def as_int(self): return self.z
    def as_real(self): return z3.ToReal(self.z)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return eng().concretize_int(self.z)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(eng().concretize_int(self.z))

    def __str__(self):
        if eng().int_tokens and not z3.is_int_value(z3.simplify(self.z)):
            return eng().token(self)
        return str(self.__index__())

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise EngineGap("round neg")

    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self
    def floor(self): return self
    def ceil(self): return self
    def trunc(self): return self
    def is_integer(self): return True
    def bit_length(self): return self.__index__().bit_length()

    @property
    def numerator(self): return self

    @property
    def denominator(self): return 1

    def __and__(self, o): return self.__index__() & o
    def __rand__(self, o): return o & self.__index__()
    def __or__(self, o): return self.__index__() | o
    def __ror__(self, o): return o | self.__index__()
    def __xor__(self, o): return self.__index__() ^ o
    def __lshift__(self, o): return self.__index__() << o
    def __rshift__(self, o): return self.__index__() >> o
    def __invert__(self): return -self - 1


class SymReal(SymNum):
    __slots__ = ()
    __class__ = property(lambda self: float)

    def as_real(self): return self.z
    def as_int(self): return z3.ToInt(self.z)

    def __hash__(self):
        return hash(eng().concretize_real(self.z))

    def __float__(self):
        return eng().concretize_real(self.z)

    def __int__(self):
        return int(eng().concretize_int(_trunc(self.z)))

    def __floor__(self): return mkint(z3.ToInt(self.z))
    def __ceil__(self): return mkint(-z3.ToInt(-self.z))
    def __trunc__(self): return mkint(_trunc(self.z))
    def floor(self): return mkreal(z3.ToReal(z3.ToInt(self.z)))
    def ceil(self): return mkreal(z3.ToReal(-z3.ToInt(-self.z)))
    def trunc(self): return mkreal(z3.ToReal(_trunc(self.z)))

    def __round__(self, n=None):
        if n is None:
            return mkint(_round_even(self.z))
        s = 10 ** int(n)
        return mkreal(z3.ToReal(_round_even(self.z * s)) / s)

    def is_integer(self):
        return mkbool(z3.IsInt(self.z))

    def __str__(self):
        return eng().token(self)


def _trunc(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def _round_even(x):
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    return z3.If(d < z3.RealVal("1/2"), f,
                 z3.If(d > z3.RealVal("1/2"), f + 1, z3.If(f % 2 == 0, f, f + 1)))


def sym_round_real(v):
    if isinstance(v, SymReal):
        return mkreal(z3.ToReal(_round_even(v.z)))
    if isinstance(v, SymInt):
        return mkreal(v.as_real())
    return float(round(v))


class SymBool(Sym):
    __slots__ = ()
    __class__ = property(lambda self: bool)

    def as_int(self): return z3.If(self.z, z3.IntVal(1), z3.IntVal(0))
    def as_real(self): return z3.If(self.z, z3.RealVal(1), z3.RealVal(0))
    def __bool__(self): return eng().branch(self.z)
    def __hash__(self): return hash(bool(self))
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __str__(self): return str(bool(self))
    def __repr__(self): return str(bool(self))
    def __format__(self, spec): return format(bool(self), spec)

    def __eq__(self, o):
        o = _unnp(o)
        if isinstance(o, SymBool):
            return mkbool(self.z == o.z)
        if isinstance(o, bool):
            return mkbool(self.z if o else z3.Not(self.z))
        if o is None:
            return False
        return SymInt(self.as_int()) == o

    def __ne__(self, o):
        return sym_not(self == o)

    def __and__(self, o):
        if isinstance(_unnp(o), (bool, SymBool)):
            return mkbool(z3.And(self.z, zbool(_unnp(o))))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(_unnp(o), (bool, SymBool)):
            return mkbool(z3.Or(self.z, zbool(_unnp(o))))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zbool(_unnp(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def logical_not(self):
        return mkbool(z3.Not(self.z))

    def _i(self): return SymInt(self.as_int())
    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __truediv__(self, o): return self._i() / o


SYMS = (SymInt, SymReal, SymBool)


def is_sym(v):
    return issubclass(type(v), Sym)


def truth(v):
    return bool(v)


def sym_not(v):
    if isinstance(v, SymBool):
        return mkbool(z3.Not(v.z))
    return not v


def sym_and(*vs):
    return mkbool(z3.And(*[zbool(v) for v in vs])) if vs else True


def sym_or(*vs):
    return mkbool(z3.Or(*[zbool(v) for v in vs])) if vs else False


def implies(a, b):
    return sym_or(sym_not(a), b)


def ite(c, a, b):
    """If-then-else without forking when both branches are numeric."""
    if not is_sym(c):
        return a if c else b
    a, b = _unnp(a), _unnp(b)
    if a is None or b is None or is_special(a) or is_special(b):
        raise EngineGap("ite on non numeric")
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(zbool(c), zbool(a), zbool(b)))
    if _intish(a) and _intish(b):
        return mkint(z3.If(zbool(c), zint(a), zint(b)))
    return mkreal(z3.If(zbool(c), zreal(a), zreal(b)))


def smin(a, b):
    return ite(b < a, b, a)


def smax(a, b):
    return ite(b > a, b, a)


def clip(x, lo, hi):
    if lo is not None:
        x = smax_special(x, lo)
    if hi is not None:
        x = smin_special(x, hi)
    return x


def smax_special(x, lo):
    if is_special(_unnp(lo)):
        return lo if lo > x else x
    return smax(x, lo)


def smin_special(x, hi):
    if is_special(_unnp(hi)):
        return hi if hi < x else x
    return smin(x, hi)


# ------------------------------------------------------------------ transcendental


LOGF = z3.Function("LOG", z3.RealSort(), z3.RealSort())
EXPF = z3.Function("EXP", z3.RealSort(), z3.RealSort())


def _pair(u, v):
    """register v = exp(u)."""
    e = eng()
    key = (u.get_id(), v.get_id())
    if key in e.pair_keys:
        return
    e.pair_keys.add(key)
    e.keep.append((u, v))
    e.add(v > 0)
    base = [(z3.RealVal(0), z3.RealVal(1))]
    for (u2, v2) in base + e.pairs:
        e.add((u < u2) == (v < v2))
        e.add((u == u2) == (v == v2))
    e.pairs.append((u, v))


def sym_log(x, flavour="math"):
    if not is_sym(x):
        r = math.log(x)
        if ENG is not None:
            _pair(zreal(r), zreal(x))
        return r
    zx = z3.simplify(x.as_real())
    if not truth(mkbool(zx > 0)):
        if flavour == "math":
            raise ValueError("math domain error")
        if truth(mkbool(zx == 0)):
            return float("-inf")
        return float("nan")
    for (u, v) in eng().pairs:
        if v.eq(zx):
            return mkreal(u)
    u = LOGF(zx)
    _pair(u, zx)
    return SymReal(u)


def sym_exp(x):
    if not is_sym(x):
        r = math.exp(x)
        if ENG is not None and r > 0 and not math.isinf(r):
            _pair(zreal(float(x)), zreal(r))
        return r
    zx = z3.simplify(x.as_real())
    for (u, v) in eng().pairs:
        if z3.simplify(u).eq(zx):
            return mkreal(v)
    v = EXPF(zx)
    _pair(zx, v)
    return SymReal(v)


def sym_sqrt(x):
    e = eng()
    if not truth(x >= 0):
        raise ValueError("math domain error")
    y = e.fresh_real("sqrt")
    e.add(y >= 0, y * y == zreal(x))
    return SymReal(y)


def sym_pow(a, b):
    if isinstance(b, SymReal):
        if not is_sym(a) and a > 0:
            return sym_exp(b * sym_log(float(a)))
        if is_sym(a):
            return sym_exp(b * sym_log(a))
        raise EngineGap("real power")
    if isinstance(b, SymInt):
        b = b.__index__()
    b = _unnp(b)
    if b is None:
        return NotImplemented
    if isinstance(b, float) and b == int(b) if not is_sym(b) and not is_special(b) else False:
        k = int(b)
        isf = True
    elif isinstance(b, int):
        k, isf = b, False
    elif isinstance(b, float) and b == 0.5:
        return sym_sqrt(a)
    else:
        return sym_exp(b * sym_log(a))
    if not is_sym(a):
        return a ** b
    if k == 0:
        return 1.0 if isf else 1
    r = a
    for _ in range(abs(k) - 1):
        r = r * a
    if k < 0:
        r = 1 / r
    if isf and isinstance(r, SymInt):
        r = SymReal(r.as_real())
    return r


# ------------------------------------------------------------------ engine


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.forks = 0
        self.asserts = 0
        self.unknown = 0
        self.lossy_paths = 0
        self.gap_paths = 0
        self.unsat_final = 0

    def merge(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


class Violation:
    def __init__(self, label, inputs, kind, detail=""):
        self.label, self.inputs, self.kind, self.detail = label, inputs, kind, detail


class Engine:
    """Explores every path of ``fn(ctx)``."""

    def __init__(self, query_timeout_ms=20000, time_budget=600.0, max_paths=200000, want=6):
        self.stats = Stats()
        self.qt = query_timeout_ms
        self.deadline = time.time() + time_budget
        self.max_paths = max_paths
        self.violations = []
        self.gaps = []
        self.covered = {}
        self.incomplete = None
        self.samples = []
        self.raw_samples = []
        self.want = want

    # ---- per path state
    def _reset(self, prefix):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.qt)
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.inputs = {}      # name -> (kind, z3 expr / concrete)
        self.order = []
        self.names = {}
        self.pairs = []
        self.pair_keys = set()
        self.keep = []
        self.tokens = {}
        self.int_tokens = False   # text of a symbolic integer: a token instead of a case split (set by harnesses where it only reaches messages)
        self.memo = {}
        self.lossy = False
        self.fresh = 0
        self.model_cache = None
        self.undo = []

    def add(self, *cs):
        for c in cs:
            self.solver.add(c)
        self.model_cache = None

    def fresh_real(self, n):
        self.fresh += 1
        return z3.Real(f"!{n}{self.fresh}")

    def query(self, *assumptions):
        if time.time() > self.deadline:
            raise BudgetExceeded("time budget")
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _quick(self, cond):
        """Evaluate under a cached model: True/False/None."""
        m = self.model_cache
        if m is None:
            return None
        v = m.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            kind, d = self.prefix[self.pos]
            assert kind in "bf", (kind, "non deterministic harness")
            self.pos += 1
            self.trail.append((kind, d))
            self.add(cond if d else z3.Not(cond))
            return d
        neg = z3.Not(cond)
        q = self._quick(cond)
        if q is True:
            t_ok = True
            f_ok = self.query(neg) != z3.unsat
        elif q is False:
            f_ok = True
            t_ok = self.query(cond) != z3.unsat
        else:
            r = self.query(cond)
            t_ok = r != z3.unsat
            mc = self.solver.model() if r == z3.sat else None
            f_ok = self.query(neg) != z3.unsat
            if mc is None and f_ok and not t_ok:
                try:
                    mc = self.solver.model()
                except z3.Z3Exception:
                    mc = None
            self._pending_model = mc
        if t_ok and f_ok:
            self.stats.forks += 1
            d = True
            self.trail.append(("b", True))
            self.stack.append(self.trail[:-1] + [("b", False)])
            keepm = self.model_cache if q is True else (self._pending_model if q is None else None)
            self.add(cond)
            self.model_cache = keepm
            return True
        if not t_ok and not f_ok:
            raise PathAbort()
        d = t_ok
        # forced: no new information, path condition entails it
        self.trail.append(("f", d))
        keepm = self.model_cache if q is not None else self._pending_model
        self.add(cond if d else neg)
        self.model_cache = keepm
        return d

    def pick(self, producer):
        """A recorded nondeterministic concrete value (deterministic on re-execution)."""
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            assert kind == "v", (kind, "non deterministic harness")
            self.pos += 1
            self.trail.append(("v", v))
            return v
        v = producer()
        self.trail.append(("v", v))
        return v

    def _model(self):
        if self.model_cache is not None:
            return self.model_cache
        r = self.query()
        if r == z3.unsat:
            raise PathAbort()
        if r == z3.unknown:
            raise BudgetExceeded("unknown while concretising")
        self.model_cache = self.solver.model()
        return self.model_cache

    def concretize_int(self, e, cap=64):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(cap):
            v = self.pick(lambda: self._model().eval(e, model_completion=True).as_long())
            if self.branch(e == v):
                return v
        # too many values: keep one, flagged
        self.lossy = True
        v = self.pick(lambda: self._model().eval(e, model_completion=True).as_long())
        self.add(e == v)
        return v

    def concretize_real(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        # forced single value?
        v = self.pick(lambda: _mval(self._model(), e))
        if self.branch(e == frac_val(v)):
            # was the other side feasible?  then we cut it (lossy) by design
            return v
        self.lossy = True
        v = self.pick(lambda: _mval(self._model(), e))
        self.add(e == frac_val(v))
        return v

    def spread_model(self, exprs=None):
        """a model of the path in which the real inputs (or the given terms) differ from each other where they can"""
        es = exprs if exprs is not None else [e for k, e in self.inputs.values() if k == "real"]
        es = [e for e in es if z3.is_arith(e)]
        if es:
            self.solver.push()
            self.solver.set("timeout", 2000)
            try:
                for i, a in enumerate(es[:24]):
                    for b in es[:i][-6:]:
                        # pairwise, as far as the path lets them
                        if self.solver.check(a != b) == z3.sat:
                            self.solver.add(a != b)
                for den in (8, 1024, None):
                    c = [] if den is None else [z3.IsInt(z3.ToReal(e) * den if e.is_int() else e * den) for e in es]
                    self.stats.queries += 1
                    if self.solver.check(*c) == z3.sat:
                        return self.solver.model()
            finally:
                self.solver.pop()
                self.solver.set("timeout", self.qt)
        return None

    def concretize_all(self, exprs):
        """One value for each of the terms, together (a slice of the path, flagged): for operations the proxies do not model."""
        exprs = [z3.simplify(e) for e in exprs]
        if all(z3.is_rational_value(e) or z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e) for e in exprs):
            return [z3.is_true(e) if z3.is_bool(e) else e.as_long() if z3.is_int_value(e) else float(e.as_fraction()) for e in exprs]
        box = []

        def vals():
            if not box:
                m = self.spread_model(exprs) or self._model()
                for e in exprs:
                    v = m.eval(e, model_completion=True)
                    box.append(z3.is_true(v) if z3.is_bool(e) else v.as_long() if e.is_int() else _num(v))
            return tuple(box)
        vs = self.pick(vals)
        self.lossy = True
        self.add(*[e if v is True else z3.Not(e) if v is False else e == (v if isinstance(v, int) else frac_val(v)) for e, v in zip(exprs, vs)])
        if self.pos >= len(self.prefix) and self.query() == z3.unsat:
            raise PathAbort()
        return list(vs)

    def token(self, s):
        k = f"_sym{len(self.tokens)}_"
        for t, o in self.tokens.items():
            if o.z.eq(s.z):
                return t
        self.tokens[k] = s
        return k

    # ---- exploration
    def explore(self, fn):
        global ENG
        self.stack = [[]]
        prev = ENG
        try:
            while self.stack:
                if self.stats.paths >= self.max_paths:
                    self.incomplete = f"path cap {self.max_paths}"
                    break
                if time.time() > self.deadline:
                    self.incomplete = "time budget"
                    break
                ex = sum(v.kind == "exception" for v in self.violations)
                if len(self.violations) - ex + len(self.gaps) >= self.want or ex >= 4 * self.want:
                    self.incomplete = "stopped after enough counterexamples"
                    break
                prefix = self.stack.pop()
                self._reset(prefix)
                ENG = self
                self.ctx = SymCtx(self)
                nv = len(self.violations)
                try:
                    fn(self.ctx)
                    self.stats.paths += 1
                    if self.lossy:
                        self.stats.lossy_paths += 1
                    self._sample()
                except PathAbort:
                    self.stats.aborted += 1
                except BudgetExceeded as ex:
                    self.incomplete = str(ex)
                    break
                except Exception as ex:  # escaped from the code under test (or an engine gap)
                    self.stats.paths += 1
                    import traceback
                    tb = traceback.format_exc(limit=-8)
                    try:
                        inp = self.inputs_from(self.spread_model() or self._model())
                    except (PathAbort, BudgetExceeded):
                        inp = None
                    if inp is not None:
                        self.violations.append(Violation(
                            "no-unexpected-exception", inp, "exception",
                            f"{type(ex).__name__}: {ex}\n{tb}"))
                finally:
                    for u in reversed(self.undo):
                        try:
                            u()
                        except Exception:
                            pass
                    ENG = prev
        finally:
            ENG = prev
        return self

    def _sample(self):
        if len(self.samples) < 3:
            try:
                raw = self.inputs_from(self.nice_model() or self._model())
                self.raw_samples.append(raw)
                self.samples.append({k: repr(v) for k, v in raw.items()})
            except (PathAbort, BudgetExceeded):
                pass

    def inputs_from(self, m):
        out = {}
        for name in self.order:
            kind, e = self.inputs[name]
            if kind == "const":
                out[name] = e
            else:
                v = m.eval(e, model_completion=True)
                if kind == "int":
                    out[name] = v.as_long()
                elif kind == "bool":
                    out[name] = bool(z3.is_true(v))
                else:
                    out[name] = _num(v)
        return out

    def nice_model(self, *cond):
        """A model of path & cond, preferring dyadic input values (they replay exactly)."""
        reals = [e for k, e in self.inputs.values() if k == "real"]
        if reals:
            t = self.solver
            t.push()
            t.set("timeout", 3000)
            try:
                for den in (1, 8, 1024):
                    self.stats.queries += 1
                    t0 = time.time()
                    r = t.check(*cond, *[z3.IsInt(e * den) for e in reals])
                    self.stats.solver_s += time.time() - t0
                    if r == z3.sat:
                        return t.model()
            finally:
                t.pop()
                t.set("timeout", self.qt)
        r = self.query(*cond)
        if r == z3.sat:
            return self.solver.model()
        return None

    def check(self, cond, label, detail=None):
        self.stats.asserts += 1
        if not is_sym(cond) and not z3.is_expr(cond):
            if cond:
                return
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(zbool(cond))
        r = self.query(neg)
        if r == z3.unsat:
            self.stats.unsat_final += 1
            return
        if r == z3.unknown:
            self.gaps.append((label, "solver unknown"))
            return
        first = self.solver.model()
        m = self.nice_model(neg) or first
        d = ""
        if detail is not None:
            try:
                d = str(detail)
            except Exception:
                d = "?"
        self.violations.append(Violation(label, self.inputs_from(m), "assertion", d))
        # continue exploring the rest of the path where the assertion holds
        if self.query(z3.Not(neg)) == z3.unsat:
            raise PathAbort()
        self.add(z3.Not(neg))


def _num(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    f = v.as_fraction()
    return float(f) if f.denominator != 1 or True else int(f)


def _mval(m, e):
    return _num(m.eval(e, model_completion=True))


# ------------------------------------------------------------------ contexts


class SymCtx:
    symbolic = True

    def __init__(self, e):
        self.e = e

    def messages_as_tokens(self):
        self.e.int_tokens = True

    @property
    def tier(self):
        return getattr(self.e, "tier", "quick")

    def _name(self, name):
        n = self.e.names.get(name, 0)
        self.e.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def _reg(self, name, kind, z):
        self.e.inputs[name] = (kind, z)
        self.e.order.append(name)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        name = self._name(name)
        z = z3.Real(name)
        self._reg(name, "real", z)
        if lo is not None:
            self.e.add(z > zreal(lo) if lo_open else z >= zreal(lo))
        if hi is not None:
            self.e.add(z < zreal(hi) if hi_open else z <= zreal(hi))
        return SymReal(z)

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        z = z3.Int(name)
        self._reg(name, "int", z)
        if lo is not None:
            self.e.add(z >= zint(lo))
        if hi is not None:
            self.e.add(z <= zint(hi))
        return SymInt(z)

    def bool(self, name):
        name = self._name(name)
        z = z3.Bool(name)
        self._reg(name, "bool", z)
        return SymBool(z)

    def choice(self, name, options):
        """A symbolic index into a finite list, resolved by solver-guided forking."""
        options = list(options)
        name = self._name(name)
        z = z3.Int(name)
        self._reg(name, "int", z)
        self.e.add(z >= 0, z < len(options))
        if len(options) == 1:
            return options[0]
        return options[self.e.concretize_int(z, cap=len(options) + 1)]

    def assume(self, cond):
        if not is_sym(cond) and not z3.is_expr(cond):
            if not cond:
                raise PathAbort()
            return
        c = zbool(cond)
        self.e.add(c)
        if self.e.query() == z3.unsat:
            raise PathAbort()

    def check(self, cond, label, detail=None):
        self.e.check(cond, label, detail)

    def cover(self, label):
        if label not in self.e.covered:
            if self.e.query() == z3.sat:
                self.e.covered[label] = 1
        else:
            self.e.covered[label] += 1

    def fail(self, label, detail=None):
        self.e.check(False, label, detail)

    def on_exit(self, f):
        self.e.undo.append(f)

    tol = 0.0

    def eq(self, a, b):
        """Equality (exact on reals; within rounding in replay and between two concrete floats)."""
        if type(a) in (int, float) and type(b) in (int, float) and (type(a) is float or type(b) is float) and a != b:
            return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        return a == b

    def le(self, a, b):
        if type(a) is float or type(b) is float:
            if type(a) in (int, float) and type(b) in (int, float):
                return a <= b or self.eq(a, b)
        return a <= b

    def near(self, a, b, tol=1e-6):
        """Equality up to the rounding of concrete factors."""
        return sym_and(a - b <= tol, b - a <= tol)


class Unreplayable(Exception):
    pass


class CheckFailed(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


class AssumeFailed(Exception):
    pass


class ConcCtx:
    """Same interface, concrete values from a solver model; used for replay on plain neps."""
    symbolic = False

    def __init__(self, inputs, tol=1e-6):
        self.inputs = inputs
        self.names = {}
        self.tol = tol
        self.undo = []
        self.used = {}

    def messages_as_tokens(self):
        pass

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def _get(self, name, default):
        name = self._name(name)
        v = self.inputs.get(name, default)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        d = lo if lo is not None else (hi if hi is not None else 0.0)
        if lo is not None and hi is not None:
            d = (lo + hi) / 2
        elif lo is not None and lo_open:
            d = lo + 1
        elif hi is not None and lo is None and hi_open:
            d = hi - 1
        v = float(self._get(name, d))
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else (hi if hi is not None else 0)
        return int(self._get(name, d))

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        options = list(options)
        i = int(self._get(name, 0))
        if not 0 <= i < len(options):
            i = 0
        return options[i]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label, detail=None):
        if not cond:
            raise CheckFailed(label, detail)

    def fail(self, label, detail=None):
        raise CheckFailed(label, detail)

    def cover(self, label):
        pass

    def on_exit(self, f):
        self.undo.append(f)

    def eq(self, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
            if a == b:
                return True
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            if math.isinf(a) or math.isinf(b):
                return False
            return abs(a - b) <= self.tol * max(1.0, abs(a), abs(b))
        return a == b

    def le(self, a, b):
        return a <= b or self.eq(a, b)

    def near(self, a, b, tol=1e-6):
        return abs(a - b) <= tol
