"""Clock and serialiser stand-ins."""
from __future__ import annotations

import re
import types

from . import core
from .core import is_sym

CLOCK = None  # object with .time() .monotonic() ...


class TimeShim(types.ModuleType):
    def __init__(self, real):
        super().__init__("time")
        self.__dict__["_r"] = real

    def __getattr__(self, n):
        if CLOCK is not None and n in ("time", "monotonic", "perf_counter", "sleep", "process_time"):
            return getattr(CLOCK, n)
        return getattr(self.__dict__["_r"], n)


class SymClock:
    """Arbitrary non-decreasing instants."""

    def __init__(self, ctx, step_max=None):
        self.ctx = ctx
        self.t = {}
        self.step_max = step_max

    def _now(self, k):
        d = self.ctx.real(f"dt.{k}", 0, self.step_max)
        self.t[k] = self.t.get(k, 1000.0) + d
        return self.t[k]

    def time(self): return self._now("time")
    def monotonic(self): return self._now("mono")
    perf_counter = monotonic
    process_time = monotonic

    def sleep(self, s): return None


def install_clock(ctx, step_max=None):
    global CLOCK
    c = SymClock(ctx, step_max)
    prev = CLOCK
    CLOCK = c

    def undo():
        global CLOCK
        CLOCK = prev
    ctx.on_exit(undo)
    if not ctx.symbolic:
        import time
        for n in ("time", "monotonic", "perf_counter", "sleep"):
            old = getattr(time, n)
            setattr(time, n, getattr(c, n))
            ctx.on_exit(lambda n=n, old=old: setattr(time, n, old))
    return c


def enc(v):
    if is_sym(v):
        if isinstance(v, core.SymReal):
            return core.ENG.token(v)
        if isinstance(v, core.SymBool):
            return bool(v)
        return core.ENG.token(v)
    if type(v) is dict:
        return {enc(k): enc(x) for k, x in v.items()}
    if type(v) in (list, tuple):
        return type(v)(enc(x) for x in v)
    return v


def dec(v):
    if core.ENG is None:
        return v
    if type(v) is str and v in core.ENG.tokens:
        return core.ENG.tokens[v]
    if type(v) is dict:
        return {dec(k): dec(x) for k, x in v.items()}
    if type(v) in (list, tuple):
        return type(v)(dec(x) for x in v)
    return v


class YamlShim(types.ModuleType):
    def __init__(self, real):
        super().__init__("yaml")
        self.__dict__["_r"] = real

    def __getattr__(self, n):
        r = getattr(self.__dict__["_r"], n)
        if core.ENG is None:
            return r
        if n in ("safe_dump", "dump"):
            return lambda data, *a, **k: r(enc(data), *a, **k)
        if n in ("safe_load", "full_load", "load", "unsafe_load"):
            return lambda *a, **k: dec(r(*a, **k))
        return r


class JsonShim(types.ModuleType):
    def __init__(self, real):
        super().__init__("json")
        self.__dict__["_r"] = real

    def __getattr__(self, n):
        r = getattr(self.__dict__["_r"], n)
        if core.ENG is None:
            return r
        if n in ("dump", "dumps"):
            return lambda data, *a, **k: r(enc(data), *a, **k)
        if n in ("load", "loads"):
            return lambda *a, **k: dec(r(*a, **k))
        return r
