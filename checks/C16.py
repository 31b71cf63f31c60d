"""C16: the grid of a search space, and grid search proposing every point of it once."""
from symx.runner import H
from symx import core
from checks import mf

GR = ["neps.search_spaces.search_space.SearchSpace.get_search_space_grid", "neps.search_spaces.hyperparameters.numerical.NumericalParameter.grid",
      "neps.search_spaces.hyperparameters.*", "neps.optimizers.grid_search.optimizer.GridSearch.*"]
B = 1000


def make(ctx, kinds, size):
    """(space, expected values per name)"""
    from neps.search_spaces import SearchSpace, FloatParameter, IntegerParameter, CategoricalParameter, ConstantParameter
    ps, want = {}, {}
    ts = [i / (size - 1) if size > 1 else 0.0 for i in range(size)]
    for i, k in enumerate(kinds):
        n = "pqrs"[i]
        if k in ("float", "float-log", "float-fid"):
            log = k == "float-log"
            lo = ctx.real(n + "-lower", 0, B, lo_open=True) if log else ctx.real(n + "-lower", -B, B)
            hi = ctx.real(n + "-upper", -B, B)
            ctx.assume(lo < hi)
            ps[n] = FloatParameter(lo, hi, log=log, is_fidelity=k.endswith("fid"))
            want[n] = ("float-log" if log else "float", lo, hi, ts)
        elif k in ("int", "int-log", "int-fid"):
            log = k == "int-log"
            span = ctx.choice(n + "-span", [1, 2, 5] if not log else [1, 4])
            lo = ctx.int(n + "-lower", 1, 9) if not log else ctx.choice(n + "-lower", [1, 2])
            ps[n] = IntegerParameter(lo, lo + span, log=log, is_fidelity=k.endswith("fid"))
            want[n] = ("int-log" if log else "int", lo, lo + span, ts)
        elif k == "cat":
            ps[n] = CategoricalParameter(["v", "u", 3])
            want[n] = ("set", ["v", "u", 3])
        else:
            ps[n] = ConstantParameter("k")
            want[n] = ("set", ["k"])
    ctx.messages_as_tokens()
    return SearchSpace(**dict(reversed(list(ps.items())))), want


def dedup(ctx, vs):
    out = []
    for v in vs:
        if not any(bool(ctx.eq(v, o)) if isinstance(v, (int, float)) else v == o for o in out):
            out.append(v)
    return out


def check_values(ctx, sp, n, w, vs):
    """the distinct values the grid has for parameter n, in order"""
    kind = w[0]
    if kind == "set":
        ctx.check(vs == w[1], "all-choices", (n, vs))
        return
    _, lo, hi, ts = w
    ctx.check(core.sym_and(*[ctx.le(lo, v) for v in vs], *[ctx.le(v, hi) for v in vs]), "in-bounds", (n, vs))
    ctx.check(core.sym_and(*[a < b for a, b in zip(vs, vs[1:])]), "ascending", (n, vs))
    ctx.check(all(isinstance(v, float if kind.startswith("float") else int) for v in vs), "type", (n, vs))
    ctx.check(ctx.eq(vs[0], lo), "lowest", vs[0])
    if len(ts) > 1:
        ctx.check(ctx.eq(vs[-1], hi), "highest", vs[-1])
    if kind == "float":
        ctx.check(len(vs) == len(ts) and core.sym_and(*[ctx.near(v, lo + t * (hi - lo)) for v, t in zip(vs, ts)]), "evenly-spaced", (n, vs))
    elif kind == "float-log":
        ctx.check(len(vs) == len(ts), "size", (n, vs))
        place = [sp[n].value_to_normalized(v) for v in vs]
        ctx.check(core.sym_and(*[ctx.near(p, t) for p, t in zip(place, ts)]), "evenly-spaced-on-the-log-scale", (n, vs))
    elif kind == "int":
        for t in ts:
            e = lo + t * (hi - lo)
            ctx.check(core.sym_or(*[core.sym_and(v - e <= 0.5 + 1e-9, e - v <= 0.5 + 1e-9) for v in vs]), "point-of-the-grid", (n, t, vs))
        for v in vs:
            ctx.check(core.sym_or(*[core.sym_and(v - e <= 0.5 + 1e-9, e - v <= 0.5 + 1e-9) for e in (lo + t * (hi - lo) for t in ts)]), "nothing-else", (n, v))


def grid(ctx):
    size = ctx.choice("size", [2, 3, 1] if ctx.tier == "quick" else [1, 2, 3, 5])
    kinds = ctx.choice("kinds", [("float", "cat"), ("int", "const", "float"), ("cat", "int-fid"), ("float-log",), ("int-log", "cat")]
                       + ([("float", "float-fid"), ("int", "int", "cat")] if ctx.tier != "quick" else []))
    sp, want = make(ctx, kinds, size)
    g = [c.hp_values() for c in sp.get_search_space_grid(size_per_numerical_hp=size, include_endpoints=True)]
    names = sorted(want)
    ctx.check(all(list(c) == names for c in g), "names")
    per = {n: dedup(ctx, [c[n] for c in g]) for n in names}
    for n in names:
        check_values(ctx, sp, n, want[n], per[n])
    total = 1
    for n in names:
        total *= len(per[n])
    ctx.check(len(g) == total, "every-combination-once", (len(g), total))
    ctx.check(len(dedup_configs(ctx, g)) == len(g), "combinations-differ", len(g))
    ctx.check(all(sp[n].value is None for n in names if want[n] != ("set", ["k"])), "space-untouched")
    ctx.cover("/".join(kinds))


def same(ctx, a, b):
    return all(bool(ctx.eq(a[k], b[k])) if isinstance(a[k], (int, float)) and isinstance(b[k], (int, float)) else a[k] == b[k] for k in a)


def dedup_configs(ctx, g):
    out = []
    for c in g:
        if not any(same(ctx, c, o) for o in out):
            out.append(c)
    return out


def search(ctx):
    """every point of the grid is proposed exactly once, also when restarted, then it is exhausted"""
    from neps.optimizers.grid_search.optimizer import GridSearch
    size = ctx.choice("size", [2, 3])
    kinds = ctx.choice("kinds", [("float", "cat"), ("int", "const"), ("cat", "int-fid")])
    sp, want = make(ctx, kinds, size)
    g = [c.hp_values() for c in sp.get_search_space_grid(size_per_numerical_hp=size, include_endpoints=True)]
    seed = ctx.choice("seed", [None, 0, 7])
    restart = ctx.choice("restarted-every", [1, 2, 100])
    o = None
    ts, got = {}, []
    for i in range(len(g)):
        if i % restart == 0:
            o = GridSearch(pipeline_space=sp, grid_step_size=size, **({"seed": seed} if seed is not None else {}))
        s = o.ask(dict(reversed(list(ts.items()))) if i % 2 else ts, None)
        ctx.check(s.id not in ts and s.previous_config_id is None, "fresh-id", s.id)
        st = ["pending", "evaluating", 1.0, None][i % 4]
        ts[s.id] = mf.trial(s.id, s.config, st)
        got.append(s.config)
    ctx.check(all(any(same(ctx, c, q) for q in got) for c in g), "every-point-proposed", len(g))
    ctx.check(all(any(same(ctx, c, q) for q in g) for c in got), "only-points-of-the-grid", len(g))
    try:
        o.ask(ts, None)
        ctx.fail("more-than-the-grid")
    except ValueError:
        pass
    ctx.cover("/".join(kinds))


A = ["floats are exact reals"]
HARNESSES = [
    H(grid, "any bounds of floats, integers of up to six values, sizes one to three (thorough: five)", GR, assumptions=A,
      covers=["float/cat", "int/const/float", "cat/int-fid", "float-log", "int-log/cat"]),
    H(search, "three spaces, any bounds, grid sizes two and three, three seeds, restarted after every, every second or no proposal", GR, assumptions=A, covers=["float/cat", "int/const", "cat/int-fid"]),
]
