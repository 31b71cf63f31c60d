"""Load the package under test from the current /repo source, lightly instrumented.

The source is re-read and re-parsed on every run.  Only three things change: calls of the
builtins float/int/type/round and of .astype (they must accept proxies), references to the numeric, randomness,
clock and serialisation modules (replaced by forwarding shims), and the names of imports made
inside functions.  Control flow and data flow are the repository's own.
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import core, npshim, rngstub
from .core import SymBool, SymInt, SymReal, is_sym, mkint, mkreal

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "neps"
LOADED = {}
UUID4 = None   # stand-in for uuid.uuid4 while set


# ------------------------------------------------------------------ builtins


def sx_float(*a):
    if a:
        v = a[0]
        if is_sym(v):
            if isinstance(v, SymReal):
                return v
            return mkreal(v.as_real())
        if type(v).__name__ == "SymTensor":
            return sx_float(v.item())
        if type(v) is str and core.ENG is not None and v.strip() in core.ENG.tokens:
            return sx_float(core.ENG.tokens[v.strip()])
        if hasattr(v, "dtype") and getattr(v, "dtype", None) == object and hasattr(v, "item"):
            return sx_float(v.item())
    return float(*a)


def sx_int(*a, **k):
    if a:
        v = a[0]
        if is_sym(v):
            if isinstance(v, SymInt):
                return v
            if isinstance(v, SymBool):
                return mkint(v.as_int())
            return v.__trunc__()
        if type(v).__name__ == "SymTensor":
            return sx_int(v.item())
        if type(v) is str and core.ENG is not None and v.strip() in core.ENG.tokens:
            return sx_int(core.ENG.tokens[v.strip()])
        if hasattr(v, "dtype") and getattr(v, "dtype", None) == object and hasattr(v, "item"):
            return sx_int(v.item())
    return int(*a, **k)


def sx_type(*a):
    if len(a) == 1 and (is_sym(a[0]) or type(a[0]).__name__ == "SymTensor"):
        return a[0].__class__
    return type(*a)


def sx_round(v, n=None):
    if type(v).__name__ == "SymTensor":
        v = v.item()
    return round(v) if n is None else round(v, n)


def sx_astype(obj, dtype=None, *a, **k):
    import numpy as np
    if core.ENG is not None and type(obj) is np.ndarray and obj.dtype == object and dtype is not None and any(is_sym(x) for x in obj.flat):
        try:
            kind = np.dtype(dtype).kind
        except TypeError:
            kind = None
        if kind in ("f", "i", "u"):
            r = np.empty(obj.shape, dtype=object)
            for i in np.ndindex(*obj.shape):
                r[i] = sx_float(obj[i]) if kind == "f" else sx_int(obj[i])
            return r
    if dtype is None:
        return obj.astype(*a, **k)
    return obj.astype(dtype, *a, **k)


BUILTINS = {"float": "_sx__float", "int": "_sx__int", "type": "_sx__type", "round": "_sx__round"}


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.shadow = [set()]

    def _func(self, node):
        self.depth += 1
        names = {a.arg for a in [*node.args.args, *node.args.kwonlyargs, *node.args.posonlyargs]}
        self.shadow.append(names & set(BUILTINS))
        self.generic_visit(node)
        self.shadow.pop()
        self.depth -= 1
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func
    visit_Lambda = _func

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in BUILTINS and not any(
                node.func.id in s for s in self.shadow):
            if node.func.id == "type" and len(node.args) != 1:
                return node
            node.func = ast.copy_location(ast.Name(BUILTINS[node.func.id], ast.Load()), node.func)
        elif isinstance(node.func, ast.Attribute) and node.func.attr == "astype":
            node.args = [node.func.value, *node.args]
            node.func = ast.copy_location(ast.Name("_sx__astype", ast.Load()), node.func)
        else:
            # builtins handed over as plain functions, e.g. map(float, xs)
            node.args = [ast.copy_location(ast.Name(BUILTINS[a.id], ast.Load()), a)
                         if isinstance(a, ast.Name) and a.id in ("float", "int", "round")
                         and isinstance(node.func, ast.Name) and node.func.id in ("map", "filter")
                         else a for a in node.args]
        return node

    def _imp(self, node, names):
        if isinstance(node, ast.ImportFrom) and node.module == "__future__":
            return node
        out = [node]
        for n in names:
            out.append(ast.copy_location(ast.Assign(
                [ast.Name(n, ast.Store())],
                ast.Call(ast.Name("_sx__wrap", ast.Load()), [ast.Name(n, ast.Load())], [])), node))
        return out

    def visit_Import(self, node):
        return self._imp(node, [a.asname or a.name.split(".")[0] for a in node.names])

    def visit_ImportFrom(self, node):
        return self._imp(node, [a.asname or a.name for a in node.names if a.name != "*"])


SHIMS = {}      # id(real) -> shim


class SxCached:
    """functools.lru_cache / cache that tolerates symbolic keys (looked up by equality)."""

    def __init__(self, fn, real):
        import functools
        self.fn, self.real = fn, real
        functools.update_wrapper(self, fn)

    def __call__(self, *a, **k):
        e = core.ENG
        if e is None:
            return self.real(*a, **k)
        memo = e.memo.setdefault(id(self), [])
        for a2, k2, r in memo:
            if len(a) == len(a2) and k.keys() == k2.keys() and bool(core.sym_and(
                    *[_keyeq(x, y) for x, y in zip(a, a2)], *[_keyeq(k[n], k2[n]) for n in k])):
                return r
        r = self.fn(*a, **k)
        memo.append((a, k, r))
        return r

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        import functools
        return functools.partial(self, obj)

    def cache_clear(self):
        self.real.cache_clear()
        if core.ENG is not None:
            core.ENG.memo.pop(id(self), None)

    def cache_info(self):
        return self.real.cache_info()


def _keyeq(x, y):
    if x is y:
        return True
    if is_sym(x) or is_sym(y):
        return x == y
    return type(x) is type(y) and x == y if not isinstance(x, (int, float)) else x == y


def sx_lru_cache(maxsize=128, typed=False):
    import functools
    if callable(maxsize):
        return SxCached(maxsize, functools.lru_cache(maxsize))
    return lambda fn: SxCached(fn, functools.lru_cache(maxsize=maxsize, typed=typed)(fn))


def sx_cache(fn):
    import functools
    return SxCached(fn, functools.cache(fn))


def wrap(v):
    try:
        return SHIMS.get(id(v), v)
    except Exception:
        return v


class Loader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path):
        self.fullname, self.path = fullname, path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def get_code(self, fullname):
        src = self.get_data(self.path)
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(Tr().visit(tree))
        LOADED[fullname] = self.path
        return compile(tree, self.path, "exec", dont_inherit=True)

    def exec_module(self, module):
        g = module.__dict__
        g["_sx__float"], g["_sx__int"], g["_sx__type"], g["_sx__wrap"] = sx_float, sx_int, sx_type, wrap
        g["_sx__round"] = sx_round
        g["_sx__astype"] = sx_astype
        exec(self.get_code(self.fullname), g)
        for k, v in list(g.items()):
            if k.startswith("__"):
                continue
            w = wrap(v)
            if w is not v:
                g[k] = w


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=Loader(fullname, init), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=Loader(fullname, base + ".py"))
        return None


def install(symbolic=True):
    """Call before importing the package."""
    assert PKG not in sys.modules, "package already imported"
    if not symbolic:
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        return
    import uuid
    real_uuid4 = uuid.uuid4
    uuid.uuid4 = lambda: (UUID4 or real_uuid4)()
    import json
    import math
    import random
    import time
    import numpy as np
    import scipy
    import scipy.stats
    import torch
    import yaml
    from . import envshim, tshim

    npr = rngstub._Dispatch(np.random, rngstub.NpRandom)
    pyr = rngstub._Dispatch(random, rngstub.PyRandom)
    sstats = rngstub._Dispatch(scipy.stats, rngstub.StatsNS)
    nps = npshim.make_np({"random": npr})
    ms = npshim.make_math()
    ts = tshim.make_torch(rngstub.torch_override())
    sc = npshim.ModShim(scipy, {}, {"stats": sstats})
    tm = envshim.TimeShim(time)
    ym = envshim.YamlShim(yaml)
    jm = envshim.JsonShim(json)
    for real, shim in ((np, nps), (np.random, npr), (math, ms), (random, pyr), (torch, ts), (scipy, sc),
                       (scipy.stats, sstats), (time, tm), (yaml, ym), (json, jm)):
        SHIMS[id(real)] = shim
    import functools
    SHIMS[id(functools.lru_cache)] = sx_lru_cache
    SHIMS[id(functools.cache)] = sx_cache
    SHIMS[id(functools)] = npshim.ModShim(functools, {}, {"lru_cache": sx_lru_cache, "cache": sx_cache})
    # from-imported functions
    for n in npshim.MATH:
        f = getattr(math, n, None)
        if f is not None:
            SHIMS[id(f)] = getattr(ms, n)
    for n in ("time", "monotonic", "perf_counter", "sleep"):
        SHIMS[id(getattr(time, n))] = _late(tm, n)
    for n in ("choice", "choices", "sample", "shuffle", "uniform", "randint"):
        SHIMS[id(getattr(random, n))] = _late(pyr, n)
    for n in npshim.FN:
        f = getattr(np, n, None)
        if f is not None and callable(f):
            SHIMS[id(f)] = getattr(nps, n)
    sys.meta_path.insert(0, Finder())


def _late(mod, n):
    return lambda *a, **k: getattr(mod, n)(*a, **k)
