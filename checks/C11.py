"""C11: parameter values stay legal."""
from symx.runner import H
from symx import rngstub, core

HP = "neps.search_spaces.hyperparameters"
FF = [f"{HP}.float.FloatParameter.*", f"{HP}.numerical.NumericalParameter.*", "neps.search_spaces.parameter.*"]
FI = [f"{HP}.integer.IntegerParameter.*", *FF]
FC = [f"{HP}.categorical.CategoricalParameter.*", "neps.search_spaces.parameter.*"]
B = 1000


def ss():
    import neps.search_spaces as m
    return m


def mk_float(ctx, default=True, log=None, **kw):
    ctx.messages_as_tokens()
    log = ctx.choice("log", [False, True]) if log is None else log
    lo = ctx.real("lower", 0, B, lo_open=True) if log else ctx.real("lower", -B, B)
    hi = ctx.real("upper", -B, B)
    ctx.assume(lo < hi)
    d = None
    if default and ctx.choice("has_default", [False, True]):
        d = ctx.real("default", -B, B)
        ctx.assume(core.sym_and(lo <= d, d <= hi))
    conf = ctx.choice("confidence", ["low", "medium", "high"]) if d is not None else "low"
    return ss().FloatParameter(lo, hi, log=log, default=d, default_confidence=conf, **kw), lo, hi


def mk_int(ctx, default=True, span=12, log=None, **kw):
    ctx.messages_as_tokens()
    log = ctx.choice("log", [False, True]) if log is None else log
    lo = ctx.int("lower", 1 if log else -span, span)
    hi = ctx.int("upper", -span, 2 * span)
    ctx.assume(lo < hi)
    d = None
    if default and ctx.choice("has_default", [False, True]):
        d = ctx.int("default", -span, 2 * span)
        ctx.assume(core.sym_and(lo <= d, d <= hi))
    conf = ctx.choice("confidence", ["low", "high"]) if d is not None else "low"
    return ss().IntegerParameter(lo, hi, log=log, default=d, default_confidence=conf, **kw), lo, hi


CHOICES = [["a", "b"], ["a", "b", "c"], [1, 2, 3], [0.5, "x", 7], ["", "None", 0]]


def mk_cat(ctx, default=True):
    cs = ctx.choice("choices", CHOICES)
    d = ctx.choice("default", [None, *cs]) if default else None
    conf = ctx.choice("confidence", ["low", "medium", "high"]) if d is not None else "low"
    return ss().CategoricalParameter(list(cs), default=d, default_confidence=conf), cs


def legal(ctx, p, v, lo, hi, what, integer=False):
    ctx.check(v is not None, f"{what}-value-set")
    ctx.check(isinstance(v, int if integer else float), f"{what}-type", v)
    ctx.check(core.sym_and(ctx.le(lo, v), ctx.le(v, hi)), f"{what}-in-bounds", v)
    n = p.normalized_value
    ctx.check(core.sym_and(ctx.le(0, n), ctx.le(n, 1)), f"{what}-normalized-in-unit", n)


def real_in(ctx, name, lo, hi):
    v = ctx.real(name, -B, B)
    ctx.assume(core.sym_and(lo <= v, v <= hi))
    return v


def int_in(ctx, name, lo, hi):
    v = ctx.int(name, -30, 30)
    ctx.assume(core.sym_and(lo <= v, v <= hi))
    return v


def float_sample(ctx):
    p, lo, hi = mk_float(ctx)
    rngstub.install(ctx)
    q = p.sample(user_priors=ctx.choice("user_priors", [False, True]))
    legal(ctx, q, q.value, lo, hi, "sample")
    ctx.check(p.value is None, "original-untouched")
    ctx.cover("sampled")


def int_sample(ctx):
    p, lo, hi = mk_int(ctx)
    rngstub.install(ctx)
    q = p.sample(user_priors=ctx.choice("user_priors", [False, True]))
    legal(ctx, q, q.value, lo, hi, "sample", True)
    ctx.check(p.value is None, "original-untouched")
    ctx.cover("sampled")


def neighbours(ctx, p, lo, hi, v, w, integer):
    p.set_value(v)
    d = rngstub.install(ctx)
    d.max_gauss = 2 if integer and p.log else 3
    op = ctx.choice("op", ["mutate", "mutate-std", "mutate-simple", "crossover"])
    if op.startswith("mutate"):
        kw = {"mutate": {}, "mutate-std": dict(std=ctx.real("std", 0, 2, lo_open=True)), "mutate-simple": dict(mutation_strategy="simple")}[op]
        try:
            c = p.mutate(**kw)
        except ValueError as e:
            ctx.check("same as child" in str(e), "mutate-failed", str(e))
            return
        legal(ctx, c, c.value, lo, hi, op, integer)
        ctx.check(core.sym_not(ctx.eq(c.value, v)) if integer else c is not p, "mutant-differs")
        ctx.cover(op)
    else:
        q = p.clone()
        q.set_value(w)
        cs = p.crossover(p, q)
        ctx.check(len(cs) == 2, "two-children")
        for c in cs:
            legal(ctx, c, c.value, lo, hi, "crossover", integer)
        ctx.check(ctx.eq(q.value, w), "second-parent-unchanged")
        ctx.cover("crossover")
    ctx.check(ctx.eq(p.value, v), "parent-unchanged")


def float_neighbours(ctx):
    p, lo, hi = mk_float(ctx, default=False)
    neighbours(ctx, p, lo, hi, real_in(ctx, "value", lo, hi), real_in(ctx, "value2", lo, hi), False)


def int_neighbours(ctx):
    p, lo, hi = mk_int(ctx, default=False, span=6, log=False)
    neighbours(ctx, p, lo, hi, int_in(ctx, "value", lo, hi), int_in(ctx, "value2", lo, hi), True)


def int_log_neighbours(ctx):
    p, lo, hi = mk_int(ctx, default=False, span=3, log=True)
    neighbours(ctx, p, lo, hi, int_in(ctx, "value", lo, hi), int_in(ctx, "value2", lo, hi), True)


def state(p):
    return [p.value, p.normalized_value, p.default, p.has_prior, p.default_confidence_score, p.default_confidence_choice,
            getattr(p, "log_default", None)] + ([state(p.float_hp)] if hasattr(p, "float_hp") else [])


def same(ctx, a, b):
    if isinstance(a, list):
        r = len(a) == len(b)
        for x, y in zip(a, b):
            r = core.sym_and(r, same(ctx, x, y))
        return r
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return type(a) is type(b) and a == b
    return ctx.eq(a, b)


def assign(ctx, p, lo, hi, integer, old, v):
    """any value or default, legal or not: taken over exactly or refused without any trace"""
    if old is not None:
        p.set_value(old)
    before = state(p)
    op = ctx.choice("op", ["set_value", "load_from", "set_default"])
    ok = core.sym_and(lo <= v, v <= hi)
    try:
        getattr(p, op)(v)
    except ValueError:
        ctx.check(core.sym_not(ok), op + "-refused-legal")
        ctx.check(same(ctx, state(p), before), op + "-refused-without-trace")
        ctx.cover(op + "-refused")
        return
    ctx.check(ok, op + "-accepted-illegal")
    if op == "set_default":
        ctx.check(ctx.eq(p.default, v), "default-is-given")
        ctx.check(p.has_prior, "default-is-prior")
        ctx.check(same(ctx, state(p)[:2], before[:2]), "value-unchanged")
        p.set_default(None)
        ctx.check(p.default is None and not p.has_prior, "default-removed")
    else:
        legal(ctx, p, p.value, lo, hi, op, integer)
        ctx.check(ctx.eq(p.value, v), op + "-value-is-given")
        ctx.check(same(ctx, state(p)[2:7], before[2:7]), "default-unchanged")
        ctx.check(ctx.eq(p.normalized_value, p.value_to_normalized(v)), op + "-normalized-consistent")
        p.set_value(None)
        ctx.check(p.value is None and p.normalized_value is None, "unset")
    ctx.cover(op + "-accepted")


def float_assign(ctx):
    p, lo, hi = mk_float(ctx)
    old = real_in(ctx, "old", lo, hi) if ctx.choice("has_old", [False, True]) else None
    v = ctx.real("value", -2 * B, 2 * B)
    if p.log:
        ctx.assume(v > 0)
    assign(ctx, p, lo, hi, False, old, v)


def int_assign(ctx):
    log = ctx.choice("log", [False, True])
    p, lo, hi = mk_int(ctx, span=4 if log else 12, log=log)
    old = int_in(ctx, "old", lo, hi) if p.default is None and ctx.choice("has_old", [False, True]) else None
    v = ctx.int("value", 1, 10) if log else ctx.int("value", -40, 40)
    assign(ctx, p, lo, hi, True, old, v)


def prior_consistent(ctx, p, q):
    """the distribution samples are drawn from is the same"""
    a, b = state(p), state(q)
    ctx.check(same(ctx, a[2:], b[2:]), "prior-same")


def clone_of(ctx, p, v, w):
    if v is not None:
        p.set_value(v)
    s = ctx.choice("changed", ["nothing", "confidence", "default"])
    if s == "confidence":
        p.set_default_confidence_score(ctx.choice("new_confidence", ["low", "medium", "high"]))
    elif s == "default":
        p.set_default(w)
    c = p.clone()
    ctx.check(type(c) is type(p) and c is not p, "type")
    ctx.check(same(ctx, state(c), state(p)), "clone-same-state")
    ctx.check(c == p, "clone-equal")
    ctx.check(core.sym_and(ctx.eq(c.lower, p.lower), ctx.eq(c.upper, p.upper)), "clone-same-bounds")
    ctx.check(c.log == p.log and c.is_fidelity == p.is_fidelity, "clone-same-kind")
    before = state(p)
    c.set_value(w)
    c.set_default(w)
    c.set_default_confidence_score("high")
    ctx.check(same(ctx, state(p), before), "original-independent")
    ctx.cover(s)


def float_clone(ctx):
    p, lo, hi = mk_float(ctx, is_fidelity=ctx.choice("fidelity", [False, True]))
    clone_of(ctx, p, real_in(ctx, "value", lo, hi) if ctx.choice("has_value", [False, True]) else None, real_in(ctx, "other", lo, hi))


def int_clone(ctx):
    p, lo, hi = mk_int(ctx, is_fidelity=ctx.choice("fidelity", [False, True]))
    clone_of(ctx, p, int_in(ctx, "value", lo, hi) if ctx.choice("has_value", [False, True]) else None, int_in(ctx, "other", lo, hi))


def float_normalize(ctx):
    p, lo, hi = mk_float(ctx, default=False)
    v, w = real_in(ctx, "value", lo, hi), real_in(ctx, "value2", lo, hi)
    n = p.value_to_normalized(v)
    ctx.check(core.sym_and(ctx.le(0, n), ctx.le(n, 1)), "normalized-in-unit")
    ctx.check(ctx.eq(p.normalized_to_value(n), v), "round-trip")
    m = p.value_to_normalized(w)
    ctx.check(core.sym_or(core.sym_not(v < w), ctx.le(n, m)), "order-kept")
    x = ctx.real("unit", 0, 1)
    y = p.normalized_to_value(x)
    ctx.check(core.sym_and(ctx.le(lo, y), ctx.le(y, hi)), "from-unit-in-bounds")
    ctx.cover("ok")


def int_normalize(ctx):
    p, lo, hi = mk_int(ctx, default=False)
    v = int_in(ctx, "value", lo, hi)
    n = p.value_to_normalized(v)
    ctx.check(core.sym_and(ctx.le(0, n), ctx.le(n, 1)), "normalized-in-unit")
    ctx.check(ctx.eq(p.normalized_to_value(n), v), "round-trip")
    x = ctx.real("unit", 0, 1)
    y = p.normalized_to_value(x)
    ctx.check(isinstance(y, int), "type")
    ctx.check(core.sym_and(ctx.le(lo, y), ctx.le(y, hi)), "from-unit-in-bounds")
    ctx.cover("ok")


def create(ctx):
    """illegal descriptions are refused, legal ones accepted and kept"""
    ctx.messages_as_tokens()
    integer = ctx.choice("integer", [False, True])
    log = ctx.choice("log", [False, True])
    mk = (lambda n: ctx.int(n, -6, 6)) if integer else (lambda n: ctx.real(n, -6, 6))
    lo, hi = mk("lower"), mk("upper")
    d = mk("default") if ctx.choice("has_default", [False, True]) else None
    ok = lo < hi
    if log:
        ok = core.sym_and(ok, lo > 0)
    if d is not None:
        ok = core.sym_and(ok, core.sym_and(lo <= d, d <= hi))
    try:
        p = (ss().IntegerParameter if integer else ss().FloatParameter)(lo, hi, log=log, default=d)
    except ValueError:
        ctx.check(core.sym_not(ok), "legal-refused")
        ctx.cover("refused")
        return
    ctx.check(ok, "illegal-accepted")
    ctx.check(core.sym_and(ctx.eq(p.lower, lo), ctx.eq(p.upper, hi)), "bounds-kept")
    ctx.check(p.default is None if d is None else ctx.eq(p.default, d), "default-kept")
    ctx.check(p.has_prior == (d is not None) and p.value is None, "fresh")
    ctx.cover("accepted")


def categorical(ctx):
    p, cs = mk_cat(ctx)
    v = ctx.choice("value", cs)
    p.set_value(v)
    rngstub.install(ctx)
    op = ctx.choice("op", ["sample", "sample-prior", "mutate", "mutate-simple", "crossover", "clone", "normalize", "illegal", "default", "confidence"])

    def cat_legal(q, what):
        ctx.check(any(q.value is c or (type(q.value) is type(c) and q.value == c) for c in cs), what + "-legal", q.value)
        ctx.check(ctx.eq(q.normalized_value, float(cs.index(q.value))), what + "-normalized")
        ctx.check(q.choices == cs, what + "-choices-kept")
    if op.startswith("sample"):
        cat_legal(p.sample(user_priors=op == "sample-prior"), op)
        if p.default is not None:
            pr = p._compute_user_prior_probabilities()
            ctx.check(all(pr[p.choices.index(p.default)] >= x for x in pr) and abs(sum(pr) - 1) < 1e-9, "default-most-likely")
    elif op.startswith("mutate"):
        try:
            c = p.mutate(mutation_strategy="simple" if op == "mutate-simple" else "local_search")
        except ValueError as e:
            ctx.check(op == "mutate-simple" and "same as child" in str(e), "mutate-failed")
            return
        cat_legal(c, op)
        ctx.check(c.value != v, "mutant-differs")
    elif op == "crossover":
        q = p.clone()
        w = ctx.choice("value2", cs)
        q.set_value(w)
        for c in p.crossover(p, q):
            cat_legal(c, op)
        ctx.check(q.value == w, "second-parent-unchanged")
    elif op == "clone":
        c = p.clone()
        ctx.check(c == p and state(c) == state(p) and c.choices == cs, "clone-same-state")
        c.set_value(ctx.choice("value2", cs))
        c.set_default(ctx.choice("default2", cs))
        c.choices.append("z")
        ctx.check(p.choices == cs, "choices-independent")
    elif op == "normalize":
        ctx.check(p.normalized_to_value(p.value_to_normalized(v)) == v, "round-trip")
    elif op == "illegal":
        before = state(p), p._value_index, p._default_index
        for f in (p.set_value, p.set_default, p.load_from):
            try:
                f("zzz")
                ctx.fail("illegal-accepted")
            except ValueError:
                pass
        ctx.check((state(p), p._value_index, p._default_index) == before, "refused-without-trace")
    elif op == "default":
        w = ctx.choice("default2", [None, *cs])
        p.set_default(w)
        ctx.check(p.default == w and p.has_prior == (w is not None), "default-is-given")
        ctx.check(w is None or p._compute_user_prior_probabilities().argmax() == cs.index(w), "prior-follows-default")
    else:
        s = ctx.choice("new", ["low", "medium", "high"])
        p.set_default_confidence_score(s)
        ctx.check(p.default_confidence_score == p.DEFAULT_CONFIDENCE_SCORES[s] == p.clone().default_confidence_score, "confidence-set")
    if op not in ("default", "confidence"):
        ctx.check(p.value == v, "unchanged")
    ctx.cover(op)


def constant(ctx):
    v = ctx.choice("value", ["a", 1, 0.5, True, ""])
    p = ss().ConstantParameter(v)
    ctx.check(p.sample().value == v and p.value == v and p.default == v and p.clone() == p, "constant")
    for f in (p.set_value, p.set_default):
        f(v)
        try:
            f("other")
            ctx.fail("changed")
        except ValueError:
            pass
    ctx.check(p.value == v and p.default == v, "unchanged")
    ctx.check(p.normalized_to_value(p.value_to_normalized(v)) == v, "round-trip")
    ctx.cover("ok")


def prior_after_changes(ctx):
    """samples and mutants after the default or its confidence were changed are still legal, and drawn around the new default"""
    integer = ctx.choice("integer", [False, True])
    p, lo, hi = (mk_int if integer else mk_float)(ctx, default=False)
    d = (int_in if integer else real_in)(ctx, "new_default", lo, hi)
    p.set_default(d)
    conf = ctx.choice("conf", ["low", "medium", "high"])
    p.set_default_confidence_score(conf)
    fresh = type(p)(lo, hi, log=p.log, default=d, default_confidence=conf)
    ctx.check(same(ctx, state(p), state(fresh)), "as-if-created-so")
    rngstub.install(ctx)
    q = p.sample(user_priors=True)
    legal(ctx, q, q.value, lo, hi, "sample", integer)
    ctx.cover("ok")


A = ["floats are exact reals, exp/log an exact strictly monotone bijection", "random draws are arbitrary values of their documented support",
     "normal draws: at most 3 attempts per neighbour"]
BF, BI = "bounds and values any reals in [-1000, 1000] (log: > 0)", "bounds any integers in [-12, 24]"
ASG = [f"{o}-{r}" for o in ("set_value", "load_from", "set_default") for r in ("accepted", "refused")]
OPS = ["mutate", "mutate-std", "mutate-simple", "crossover"]
HARNESSES = [
    H(float_sample, BF, FF, covers=["sampled"], assumptions=A),
    H(int_sample, BI, FI, covers=["sampled"], assumptions=A),
    H(float_neighbours, BF, FF, covers=OPS, assumptions=A),
    H(int_neighbours, "bounds any integers in [-6, 12]", FI, covers=OPS, assumptions=A),
    H(int_log_neighbours, "bounds any integers in [1, 6], two normal draws", FI, covers=OPS, assumptions=A),
    H(float_assign, BF + ", candidate values in [-2000, 2000]", FF, covers=ASG, assumptions=A),
    H(int_assign, BI + ", candidate values in [-40, 40] (log: bounds in [1, 8])", FI, covers=ASG, assumptions=A),
    H(float_clone, BF, FF, covers=["nothing", "confidence", "default"], assumptions=A),
    H(int_clone, BI, FI, covers=["nothing", "confidence", "default"], assumptions=A),
    H(float_normalize, BF, FF, covers=["ok"], assumptions=A),
    H(int_normalize, BI, FI, covers=["ok"], assumptions=A),
    H(prior_after_changes, "as above", FI, covers=["ok"], assumptions=A),
    H(create, "bounds and default any numbers in [-6, 6]", FI, covers=["accepted", "refused"], assumptions=A),
    H(categorical, "five choice lists, every value, default, draw", FC, assumptions=A,
      covers=["sample", "sample-prior", "mutate", "mutate-simple", "crossover", "clone", "normalize", "illegal", "default", "confidence"]),
    H(constant, "five constants", [f"{HP}.constant.ConstantParameter.*"], covers=["ok"]),
]
