"""C19: the rungs and brackets of successive halving and Hyperband."""
from symx.runner import H
from symx import core

LADDER = ["neps.optimizers.multi_fidelity.successive_halving.*", "neps.optimizers.multi_fidelity.hyperband.*"]


def make(ctx, kind, s, eta, lo, hi, integer):
    from neps.search_spaces import SearchSpace, FloatParameter, IntegerParameter
    from neps.optimizers.multi_fidelity import successive_halving as sh, hyperband as hb
    from neps.optimizers.multi_fidelity_prior import priorband as pb, async_priorband as apb
    sp = SearchSpace(x=FloatParameter(0.0, 1.0, default=0.5), e=(IntegerParameter if integer else FloatParameter)(lo, hi, is_fidelity=True))
    C = {"sh": sh.SuccessiveHalving, "asha": sh.AsynchronousSuccessiveHalving, "sh-prior": sh.SuccessiveHalvingWithPriors, "asha-prior": sh.AsynchronousSuccessiveHalvingWithPriors,
         "hb": hb.Hyperband, "ahb": hb.AsynchronousHyperband, "pb": pb.PriorBand, "pb-asha": apb.PriorBandAsha, "pb-ahb": apb.PriorBandAshaHB}[kind]
    kw = dict(pipeline_space=sp, eta=eta, budget=1)
    if "sh" in kind and kind not in ("pb-ahb",):
        kw["early_stopping_rate"] = s
    try:
        return C(**kw), sp
    except TypeError:
        kw.pop("early_stopping_rate", None)
        ctx.assume(s == 0)
        return C(**kw), sp


def bounds(ctx, integer, ratio):
    if integer:
        lo, hi = ctx.int("lower", 1, 6), ctx.int("upper", 2, 6 * ratio)
    else:
        lo, hi = ctx.real("lower", 0.01, 20), ctx.real("upper", 0.01, 20 * ratio)
    ctx.assume(core.sym_and(lo < hi, hi <= ratio * lo))
    return lo, hi


def check_rungs(ctx, o, s, eta, lo, hi, integer):
    """the rungs of a bracket that leaves out the s lowest; their number"""
    rm = o.rung_map
    rs = sorted(rm)
    ctx.check(rs == list(range(s, s + len(rs))) and len(rs) >= 1, "rungs-in-sequence", rs)
    top = rs[-1]
    ctx.check(ctx.eq(rm[top], hi), "highest-is-the-maximum", rm[top])
    for r in rs:
        real = hi / eta ** (top - r)
        v = rm[r]
        if integer:
            ctx.check(isinstance(v, int) and core.sym_and(v <= real + 1e-6, real - 1 - 1e-6 < v), "integer-rung", (r, v))
        else:
            ctx.check(isinstance(v, float) and core.sym_and(real - v <= 1e-6 * real, v - real <= 1e-6 * real), "rung", (r, v))
        ctx.check(core.sym_and(ctx.le(lo, v), ctx.le(v, hi)), "rung-within-the-fidelity", (r, v))
    # as many as fit
    ctx.check(hi / eta ** (top + 1) <= lo * (1 + 1e-6), "as-many-rungs-as-fit", top)
    ctx.check(hi / eta ** top >= lo * (1 - 1e-6), "no-more-rungs-than-fit", top)
    ctx.check(o.min_rung == s and o.max_rung == top, "lowest-and-highest", (o.min_rung, o.max_rung))
    # Hyperband's sizes (algorithm 1): n = floor((R+1) / (top-s+1)) * eta^(top-s), a 1/eta of it each further rung
    n = ((top + 1) // (top - s + 1)) * eta ** (top - s)
    want = {r: n // eta ** (r - s) for r in rs}
    ctx.check({k: int(v) for k, v in o.config_map.items()} == want, "sizes", o.config_map)
    return top


KINDS = ["sh", "asha", "sh-prior", "asha-prior", "hb", "ahb", "pb", "pb-asha", "pb-ahb"]


def ladder(ctx):
    """rungs of one bracket"""
    ctx.messages_as_tokens()
    integer = ctx.choice("integer", [False, True])
    eta = ctx.choice("eta", [2, 3, 4])
    lo, hi = bounds(ctx, integer, eta ** 3 - 1 if ctx.tier == "quick" else eta ** 4)
    s = ctx.choice("early-stopping-rate", [0, 1, 2])
    kind = ctx.choice("kind", ["sh", "asha"])
    try:
        o, sp = make(ctx, kind, s, eta, lo, hi, integer)
    except AssertionError:
        ctx.check(hi < lo * eta ** s, "early-stopping-accepted", s)
        ctx.cover("too-early")
        return
    ctx.check(hi >= lo * eta ** s * (1 - 1e-6), "early-stopping-refused", s)
    top = check_rungs(ctx, o, s, eta, lo, hi, integer)
    ctx.check(sorted(o.full_rung_trace) == sorted(r for r, n in o.config_map.items() for _ in range(int(n))), "trace", o.full_rung_trace)
    ctx.cover(f"{top - s + 1}-rungs")


def brackets(ctx):
    """Hyperband runs one bracket per early stopping rate, each on the same rungs"""
    ctx.messages_as_tokens()
    integer = ctx.choice("integer", [False, True])
    eta = ctx.choice("eta", [2, 3])
    kind = ctx.choice("kind", KINDS)
    lo, hi = bounds(ctx, integer, eta ** 2 + 1 if ctx.tier == "quick" else eta ** 3)
    o, sp = make(ctx, kind, 0, eta, lo, hi, integer)
    top = check_rungs(ctx, o, 0, eta, lo, hi, integer)
    bs = getattr(o, "sh_brackets", None)
    if kind in ("hb", "ahb", "pb", "pb-ahb"):
        ctx.check(sorted(bs) == list(range(top + 1)), "brackets", sorted(bs))
        for s, b in bs.items():
            t = check_rungs(ctx, b, s, eta, lo, hi, integer)
            ctx.check(t == top and core.sym_and(*[ctx.eq(b.rung_map[r], o.rung_map[r]) for r in b.rung_map]), "same-rungs", s)
            sync = type(b).__name__ == "SuccessiveHalving"
            ctx.check(sync == (kind in ("hb", "pb")), "kind-of-bracket", type(b).__name__)
        ctx.cover(f"{top + 1}-brackets")
    ctx.check(ctx.eq(sp.fidelity.upper, hi) and ctx.eq(sp.fidelity.lower, lo) and sp.fidelity.value is None, "space-untouched")
    ctx.cover(kind)


def refused(ctx):
    """a fidelity or factor without a ladder is refused"""
    ctx.messages_as_tokens()
    integer = ctx.choice("integer", [False, True])
    kind = ctx.choice("kind", ["sh", "hb", "pb"])
    what = ctx.choice("what", ["lower", "eta"])
    if what == "lower":
        lo = ctx.int("lower", -3, 0) if integer else ctx.real("lower", -5, 0)
        eta = ctx.choice("eta", [2, 3])
    else:
        lo, eta = (1 if integer else 1.0), ctx.choice("eta", [1, 0, -2])
    hi = ctx.int("upper", 2, 9) if integer else ctx.real("upper", 1.5, 9)
    try:
        make(ctx, kind, 0, eta, lo, hi, integer)
    except (ValueError, ArithmeticError):
        ctx.cover(what)
        return
    ctx.fail("accepted")


A = ["floats are exact reals; the comparisons allow a relative error of 1e-6"]
HARNESSES = [
    H(ladder, "eta 2 to 4, any bounds with a ratio of less than eta^3 (thorough: eta^4), integers from 1 to 6 on, early stopping rates 0 to 2", LADDER, assumptions=A,
      covers=["1-rungs", "2-rungs", "3-rungs", "too-early"], budget={"quick": 120, "thorough": 1200}),
    H(brackets, "eta 2 and 3, any bounds with up to three rungs, nine searchers", LADDER + ["neps.optimizers.multi_fidelity_prior.*"], assumptions=A, covers=[*KINDS, "1-brackets", "2-brackets", "3-brackets"],
      budget={"quick": 150, "thorough": 1200}),
    H(refused, "any non-positive lower bound, eta 1, 0 and -2", LADDER, assumptions=A, covers=["lower", "eta"]),
]
