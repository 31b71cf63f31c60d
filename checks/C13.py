"""C13: configurations survive encoding for the model and back."""
from symx.runner import H
from symx import core

B = 1000
ENC = ["neps.search_spaces.encoding.ConfigEncoder.*", "neps.search_spaces.encoding.MinMaxNormalizer.*",
       "neps.search_spaces.encoding.CategoricalToIntegerTransformer.*", "neps.search_spaces.encoding.CategoricalToUnitNorm.*",
       "neps.search_spaces.domain.Domain.*"]
CATS = [["x", "y"], ["x", "y", "z"], [3, 1, 2, 0], ["d", "a", "c", "b", "e"], [[1], [2], [3], [4]]]


def T(x):
    import torch
    if core.ENG is not None:
        from symx import tshim
        return tshim._tensor(x, dtype=torch.float64)
    return torch.tensor(x, dtype=torch.float64)


def param(ctx, kind, tag):
    """(parameter, value maker)"""
    from neps.search_spaces import FloatParameter, IntegerParameter, CategoricalParameter
    if kind in ("float", "float-log"):
        log = kind.endswith("log")
        lo = ctx.real(tag + "lower", 0, B, lo_open=True) if log else ctx.real(tag + "lower", -B, B)
        hi = ctx.real(tag + "upper", -B, B)
        ctx.assume(lo < hi)

        def val(n):
            v = ctx.real(tag + n, -B, B)
            ctx.assume(core.sym_and(lo <= v, v <= hi))
            return v
        return FloatParameter(lo, hi, log=log), val, (lo, hi)
    if kind in ("int", "int-log"):
        n = ctx.choice(tag + "span", [1, 3] if ctx.tier == "quick" else [1, 2, 3, 6, 9])
        lo = ctx.int(tag + "lower", 1 if kind == "int-log" else -9, 9)

        def val(nm):
            v = ctx.int(tag + nm, -9, 20)
            ctx.assume(core.sym_and(lo <= v, v <= lo + n))
            return v
        return IntegerParameter(lo, lo + n, log=kind == "int-log"), val, (lo, lo + n)
    cs = ctx.choice(tag + "choices", CATS[1:4:2] if ctx.tier == "quick" else CATS)
    return CategoricalParameter(list(cs)), (lambda nm: cs[ctx.choice(tag + nm, range(len(cs)))]), cs


KINDS = ["float", "float-log", "int", "int-log", "cat"]


def same(ctx, a, b):
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        return isinstance(a, int) == isinstance(b, int) and ctx.eq(a, b)
    return type(a) is type(b) and a == b


def mk(ctx, names):
    from neps.search_spaces.encoding import ConfigEncoder, CategoricalToUnitNorm
    ks = [ctx.choice(n + "-kind", KINDS) for n in names]
    ps = [param(ctx, k, n + "-") for k, n in zip(ks, names)]
    params = {n: p[0] for n, p in zip(names, ps)}
    custom = None
    if "cat" in ks and ctx.choice("unit-norm", [False, True]):
        custom = {n: CategoricalToUnitNorm(params[n].choices) for n, k in zip(names, ks) if k == "cat"}
    enc = ConfigEncoder.default(params, constants={"const": "c"}, custom_transformers=custom)
    return enc, ks, ps, params, custom


def round_trip(ctx):
    ctx.messages_as_tokens()
    names = ["zeta", "alpha"]
    enc, ks, ps, params, custom = mk(ctx, names)
    configs = [{n: p[1](f"value{i}") for n, p in zip(names, ps)} for i in (0, 1)]
    given = [dict(c, const="c", other=1) for c in configs]
    x = enc.encode(given)
    ctx.check(tuple(x.shape) == (2, 2) and enc.ncols == 2, "shape")
    ctx.check(list(enc.index_of.values()) == [0, 1] and [enc.domain_of[n] for n in enc.index_of] == enc.domains, "columns")
    for i in (0, 1):
        for n in names:
            d, v = enc.domain_of[n], x[i, enc.index_of[n]].item()
            ctx.check(core.sym_and(ctx.le(d.lower, v), ctx.le(v, d.upper)), "encoded-in-its-domain", (n, v))
    back = enc.decode(x)
    ctx.check(len(back) == 2, "rows")
    for c, b in zip(configs, back):
        ctx.check(set(b) == {"zeta", "alpha", "const"} and b["const"] == "c", "parameters")
        for n in names:
            ctx.check(same(ctx, b[n], c[n]), "round-trip", (n, b[n]))
    for c, g in zip(configs, given):
        ctx.check(set(g) == {"zeta", "alpha", "const", "other"}, "argument-unchanged")
    for n, k in zip(names, ks):
        # different configurations stay different, equal ones equal
        i = enc.index_of[n]
        if k == "cat":
            ctx.check((configs[0][n] == configs[1][n]) == bool(ctx.eq(x[0, i].item(), x[1, i].item())), "distinct")
        else:
            a, b = configs[0][n], configs[1][n]
            ctx.check(core.sym_or(core.sym_not(a < b), x[0, i].item() < x[1, i].item()), "ordered")
    ctx.cover("+".join(sorted(set(ks))))
    ctx.cover("unit-norm" if custom else "plain")


def decoded_legal(ctx):
    """whatever a model proposes inside the encoded domains decodes to a legal configuration"""
    ctx.messages_as_tokens()
    names = ["zeta", "alpha"]
    enc, ks, ps, params, custom = mk(ctx, names)
    row = [None, None]
    for n, k in zip(names, ks):
        d = enc.domain_of[n]
        if k == "cat" and not custom:
            row[enc.index_of[n]] = ctx.choice(n + "-index", range(d.cardinality)) + 0.0
        else:
            row[enc.index_of[n]] = ctx.real(n + "-unit", 0, 1)
    c = enc.decode(T([row]))[0]
    for n, k, p in zip(names, ks, ps):
        if k == "cat":
            ctx.check(any(type(c[n]) is type(v) and c[n] == v for v in p[2]), "choice", c[n])
        else:
            ctx.check(core.sym_and(ctx.le(p[2][0], c[n]), ctx.le(c[n], p[2][1])), "in-bounds", (n, c[n]))
            ctx.check(isinstance(c[n], int if k.startswith("int") else float), "type", c[n])
            params[n].set_value(c[n])
    ctx.cover("+".join(sorted(set(ks))))


def categories(ctx):
    """all choice lists, each value"""
    from neps.search_spaces.encoding import CategoricalToUnitNorm, CategoricalToIntegerTransformer
    cs = ctx.choice("choices", CATS)
    t = ctx.choice("as", [CategoricalToIntegerTransformer, CategoricalToUnitNorm])(cs)
    ixs = [ctx.choice(f"i{n}", range(len(cs))) for n in range(2)]
    x = t.encode([cs[i] for i in ixs])
    ctx.check(t.decode(x) == [cs[i] for i in ixs], "round-trip")
    ctx.check(t.domain.is_categorical and t.domain.cardinality == len(cs), "domain")
    if isinstance(t, CategoricalToUnitNorm):
        u = ctx.real("u", 0, 1)
        ctx.check(t.decode(T([u]))[0] in cs, "legal")
    ctx.cover(type(t).__name__)


def refused(ctx):
    from neps.search_spaces import FloatParameter, ConstantParameter
    from neps.search_spaces.encoding import ConfigEncoder
    lo = ctx.real("lower", -B, B)
    what = ctx.choice("what", ["overlap", "constant-as-parameter"])
    try:
        if what == "overlap":
            ConfigEncoder.default({"a": FloatParameter(lo, lo + 1)}, constants={"a": 1})
        else:
            ConfigEncoder.default({"a": ConstantParameter(1)})
        ctx.fail("accepted", what)
    except ValueError:
        ctx.cover(what)


A = ["floats are exact reals (32-bit dtypes included), exp/log an exact strictly monotone bijection"]
BB = "two parameters of any kinds, bounds any reals in [-1000, 1000] (log: > 0) or integer ranges of 2 or 4 values (thorough: up to 10) starting in [-9, 9], categoricals of 3 or 5 choices; two configurations"
PAIRS = ["+".join(sorted({a, b})) for i, a in enumerate(KINDS) for b in KINDS[i:]]
HARNESSES = [
    H(round_trip, BB, ENC, covers=PAIRS + ["unit-norm", "plain"], assumptions=A, sym_alloc=True),
    H(decoded_legal, BB, ENC, covers=PAIRS, assumptions=A, sym_alloc=True),
    H(categories, "five choice lists", ENC, covers=["CategoricalToUnitNorm", "CategoricalToIntegerTransformer"], assumptions=A),
    H(refused, "any bounds", ENC, covers=["overlap", "constant-as-parameter"]),
]
