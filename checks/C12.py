"""C12: translating values between domains."""
from symx.runner import H
from symx import core

B = 1000
DOM = ["neps.search_spaces.domain.Domain.*"]
KINDS = ["float", "float-log", "float-bins", "float-log-bins", "int", "int-log", "int-bins", "indices"]


def D():
    from neps.search_spaces.domain import Domain
    return Domain


def T(x):
    import torch
    if core.ENG is not None:
        from symx import tshim
        return tshim._tensor(x, dtype=torch.float64)
    return torch.tensor(x, dtype=torch.float64)


def spans(ctx):
    return [1, 2, 3, 5] if ctx.tier == "quick" else [1, 2, 3, 4, 5, 7, 9, 12]


def mk(ctx, kind, tag="", sp=None):
    """(domain, lower, upper)"""
    if kind.startswith("float"):
        log = "log" in kind
        lo = ctx.real(tag + "lower", 0, B, lo_open=True) if log else ctx.real(tag + "lower", -B, B)
        hi = ctx.real(tag + "upper", -B, B)
        ctx.assume(lo < hi)
        bins = ctx.choice(tag + "bins", [2, 3, 5] if sp is None else [3]) if "bins" in kind else None
        return D().floating(lo, hi, log=log, bins=bins), lo, hi
    n = ctx.choice(tag + "span", sp or spans(ctx))
    if kind == "indices":
        return D().indices(n + 1), 0, n
    log = kind == "int-log"
    lo = ctx.int(tag + "lower", 1 if log else -20, 20)
    bins = ctx.choice(tag + "bins", [2, 3] if sp is None else [2]) if kind == "int-bins" else None
    if bins:
        n = n * (bins - 1)
    return D().integer(lo, lo + n, log=log, bins=bins), lo, lo + n


def member(ctx, d, kind, lo, hi, tag=""):
    """an arbitrary value of the domain"""
    if "bins" in kind:
        k = ctx.choice(tag + "level", list(range(d.bins)))
        if "log" in kind:
            return d.from_unit(T([k / (d.bins - 1)]))[0].item()
        return lo + (hi - lo) * k / (d.bins - 1) if kind.startswith("float") else lo + (hi - lo) // (d.bins - 1) * k
    if kind.startswith("float"):
        v = ctx.real(tag + "value", -B, B)
    else:
        v = ctx.int(tag + "value", -20, 40)
    ctx.assume(core.sym_and(lo <= v, v <= hi))
    return v


def inside(ctx, d, kind, lo, hi, v, what):
    ctx.check(core.sym_and(ctx.le(lo, v), ctx.le(v, hi)), what + "-in-bounds", v)
    if not kind.startswith("float"):
        ctx.check(v.is_integer() if isinstance(v, float) else True, what + "-integer", v)
    if "bins" in kind:
        q = d.bins
        if "log" in kind:
            lv = [d.from_unit(T([k / (q - 1)]))[0].item() for k in range(q)]
        else:
            lv = [lo + (hi - lo) * k / (q - 1) for k in range(q)]
        ctx.check(core.sym_or(*[ctx.eq(v, x) for x in lv]), what + "-on-a-level", v)


def pre(ctx):
    import torch
    ctx.messages_as_tokens()
    return torch


def from_unit(ctx):
    torch = pre(ctx)
    kind = ctx.choice("kind", KINDS)
    d, lo, hi = mk(ctx, kind)
    u, w = ctx.real("u", 0, 1), ctx.real("w", 0, 1)
    r = d.from_unit(T([u, w]))
    ctx.check(tuple(r.shape) == (2,), "shape")
    ctx.check(r.dtype == (torch.float64 if kind.startswith("float") else torch.int64), "dtype")
    x, y = r[0].item(), r[1].item()
    inside(ctx, d, kind, lo, hi, x, "from-unit")
    ctx.check(core.sym_or(core.sym_not(u <= w), ctx.le(x, y)), "order-kept")
    if kind in ("int", "indices"):
        n = hi - lo + 1
        k = x - lo
        ctx.check(core.sym_or(u == 1, core.sym_and(k <= u * n, u * n < k + 1)), "equal-share-of-the-unit-interval", x)
    if kind == "float":
        ctx.check(ctx.eq(x - lo, u * (hi - lo)), "linear")
    ends = d.from_unit(T([0.0, 1.0]))
    ctx.check(core.sym_and(ctx.eq(ends[0].item(), lo), ctx.eq(ends[1].item(), hi)), "ends")
    ctx.cover(kind)


def round_trip(ctx):
    torch = pre(ctx)
    kind = ctx.choice("kind", KINDS)
    d, lo, hi = mk(ctx, kind)
    v = member(ctx, d, kind, lo, hi)
    w = member(ctx, d, kind, lo, hi, "other-")
    r = d.to_unit(T([v, w]))
    u, x = r[0].item(), r[1].item()
    ctx.check(core.sym_and(ctx.le(0, u), ctx.le(u, 1)), "unit")
    ctx.check(r.dtype == torch.float64 and tuple(r.shape) == (2,), "dtype")
    ctx.check(core.sym_or(core.sym_not(v <= w), ctx.le(u, x)), "order-kept")
    b = d.from_unit(r)
    ctx.check(ctx.eq(b[0].item(), v), "round-trip", b[0].item())
    ctx.check(ctx.eq(d.cast(T([v]), frm=d)[0].item(), v), "own-domain")
    ctx.check(ctx.eq(d.to_unit_one(v + 0.0), u), "one-value")
    ctx.check(tuple(d.bounds) == (d.lower, d.upper) if not ctx.symbolic else True, "bounds")
    ctx.cover(kind)


def cast(ctx):
    pre(ctx)
    ka = ctx.choice("from", KINDS)
    kb = ctx.choice("to", KINDS)
    sp = [2, 3] if ctx.tier == "quick" else None
    a, la, ua = mk(ctx, ka, "a-", sp)
    rel = ctx.choice("relation", ["any", "same-bounds"]) if ka.split("-")[0] == kb.split("-")[0] and "bins" not in ka + kb and "log" not in ka + kb else "any"
    if rel == "same-bounds":
        b, lb, ub = (D().floating(la, ua) if kb == "float" else D().integer(la, ua)), la, ua
    else:
        b, lb, ub = mk(ctx, kb, "b-", sp)
    v = member(ctx, a, ka, la, ua)
    r = b.cast(T([v]), frm=a)
    x = r[0].item()
    inside(ctx, b, kb, lb, ub, x, "cast")
    ctx.check(ctx.eq(x, b.from_unit(a.to_unit(T([v])))[0].item()), "as-through-the-unit-interval", x)
    ctx.check(ctx.eq(b.cast_one(v + 0.0, frm=a), x), "one-value")
    if kb in ("float", "float-log") and "bins" not in ka:
        ctx.check(ctx.eq(a.cast(r, frm=b)[0].item(), v), "round-trip")
    ctx.cover(ka + ">" + kb)


def log_bounds(ctx):
    """between a domain on a log scale and the domain of its logarithms"""
    pre(ctx)
    kind = ctx.choice("kind", ["float-log", "int-log"])
    a, lo, hi = mk(ctx, kind)
    b = D().floating(*a.log_bounds)
    v = member(ctx, a, kind, lo, hi)
    l = b.cast(T([v]), frm=a)
    ctx.check(core.sym_and(ctx.le(b.lower, l[0].item()), ctx.le(l[0].item(), b.upper)), "logarithm-in-bounds", l[0].item())
    ctx.check(ctx.eq(a.cast(l, frm=b)[0].item(), v), "round-trip")
    u = ctx.real("u", 0, 1)
    x = a.cast(T([b.lower + u * (b.upper - b.lower)]), frm=b)[0].item()
    inside(ctx, a, kind, lo, hi, x, "exponential")
    ctx.cover(kind)


def translate(ctx):
    torch = pre(ctx)
    kinds = ["float", "float-log", "int", "indices"]
    form = ctx.choice("form", ["list-list", "one-list", "list-one", "one-one"])
    fk = ctx.choice("from", kinds)
    tk = ctx.choice("to", kinds)
    sp = [2] if ctx.tier == "quick" else [1, 4]
    a = mk(ctx, fk, "a-", sp)
    b = mk(ctx, tk, "b-", sp)
    c = (D().floating(0.0, 1.0), 0.0, 1.0)
    frm = [a, c] if form.startswith("list") else [a, a]
    to = [b, (D().floating(-3.0, 5.0), -3.0, 5.0)] if form.endswith("list") else [b, b]
    rows = [[member(ctx, frm[j][0], fk if frm[j] is a else "float", frm[j][1], frm[j][2], f"r{i}{j}-") for j in (0, 1)] for i in (0, 1)]
    x = T(rows)
    r = D().translate(x, frm=[f[0] for f in frm] if form.startswith("list") else a[0], to=[t[0] for t in to] if form.endswith("list") else b[0])
    ctx.check(tuple(r.shape) == (2, 2), "shape")
    for i in (0, 1):
        for j in (0, 1):
            ctx.check(ctx.eq(r[i, j].item(), to[j][0].cast(T([rows[i][j]]), frm=frm[j][0])[0].item()), "each-column-cast", (i, j))
            ctx.check(ctx.eq(x[i, j].item(), rows[i][j]), "argument-unchanged")
    try:
        D().translate(x, frm=[a[0]], to=b[0])
        ctx.fail("wrong-number-of-domains-accepted")
    except ValueError:
        pass
    ctx.cover(form)


A = ["floats are exact reals, exp/log an exact strictly monotone bijection"]
BB = "float bounds any reals in [-1000, 1000] (log: > 0), 2, 3 or 5 bins; integer domains of 2 to 6 values starting anywhere in [-20, 20] (thorough: up to 13 values)"
HARNESSES = [
    H(from_unit, BB, DOM, covers=KINDS, assumptions=A),
    H(round_trip, BB, DOM, covers=KINDS, assumptions=A),
    H(cast, BB, DOM, covers=[f"{a}>{b}" for a in KINDS for b in KINDS], assumptions=A),
    H(log_bounds, BB, DOM, covers=["float-log", "int-log"], assumptions=A),
    H(translate, "two rows of two columns; " + BB, DOM, covers=["list-list", "one-list", "list-one", "one-one"], sym_alloc=True, assumptions=A),
]
