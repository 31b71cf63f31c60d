"""C18: random search."""
from symx.runner import H
from symx import core, rngstub
from . import mf
from .C14 import space, legal, no_values

RS = ["neps.optimizers.random_search.optimizer.*", "neps.search_spaces.search_space.SearchSpace.*", "neps.search_spaces.hyperparameters.*"]


def propose(ctx):
    """legal, complete, a fresh id, whatever the history"""
    from neps.optimizers.random_search.optimizer import RandomSearch
    full = ctx.tier != "quick"
    shape = ctx.choice("shape", ["plain", "prior", "fidelity", "both"])
    prior, fid = shape in ("prior", "both"), shape in ("fidelity", "both")
    sp, b = space(ctx, small=True, prior=prior, fid=fid)
    d = rngstub.install(ctx)
    d.max_gauss = 2
    kw = {}
    up = ctx.choice("use-priors", [None, True, False] if full else [True, None] if prior else [None])
    ig = ctx.choice("ignore-fidelity", [None, True, False] if full else [None, False] if fid else [None])
    if up is not None:
        kw["use_priors"] = up
    if ig is not None:
        kw["ignore_fidelity"] = ig
    o = RandomSearch(pipeline_space=sp, **kw)
    n = ctx.choice("known", [0, 1, 2] if full or shape == "plain" else [0, 2] if shape != "both" else [2])
    ts = {}
    for i in range(n):
        st = ctx.choice(f"state{i}", ["pending", "done"] if full or shape == "plain" else ["done"]) if i == 0 else "error"
        ts[str(i + 1)] = mf.trial(str(i + 1), {"x": ctx.real(f"seen{i}", -9, 9), "n": 0, "c": "a", "k": 7, **({"e": 9} if fid else {})},
                                  {"done": 1.0, "error": None}.get(st, st))
    before = {k: (t.config["x"], t.state, t.report) for k, t in ts.items()}
    for again in range(ctx.choice("asked", [1, 2]) if ctx.tier != "quick" else 1):
        s = o.ask(ts, None)
        ctx.check(s.id == str(n + 1) and s.previous_config_id is None, "fresh-id", s.id)
        legal(ctx, dict(s.config), b, "proposal")
        if fid and ig is not False:
            ctx.check(s.config["e"] == 9, "at-the-maximum", s.config["e"])
            ctx.cover("maximum")
        elif fid:
            ctx.cover("fidelity-sampled")
    ctx.check(list(ts) == list(before) and all(core.sym_and(ctx.eq(t.config["x"], before[k][0]), t.state is before[k][1], t.report is before[k][2]) for k, t in ts.items()), "history-untouched")
    no_values(ctx, sp, "space-untouched")
    ctx.cover("prior" if up and prior else "uniform")


def spread(ctx):
    """without priors a sample lies anywhere: the draw placed in the range, on the scale of the parameter"""
    from neps.optimizers.random_search.optimizer import RandomSearch
    from neps.search_spaces import SearchSpace, FloatParameter, IntegerParameter, CategoricalParameter
    ctx.messages_as_tokens()
    lo, hi = ctx.real("lower", -100, 100), ctx.real("upper", -100, 100)
    ctx.assume(lo < hi)
    # a target that has to be reachable
    t = ctx.real("target", -100, 100)
    ctx.assume(core.sym_and(lo <= t, t <= hi))
    d = rngstub.install(ctx)
    sp = SearchSpace(x=FloatParameter(lo, hi), c=CategoricalParameter(["a", "b", "c"]), n=IntegerParameter(2, 4))
    o = RandomSearch(pipeline_space=sp)
    s = o.ask({}, None)
    x = s.config["x"]
    ctx.check(core.sym_and(ctx.le(lo, x), ctx.le(x, hi)), "legal", x)
    # a witness for each third of the range and each choice
    w = (x - lo) * 3
    part = 0 if bool(w < hi - lo) else 1 if bool(w < 2 * (hi - lo)) else 2
    ctx.cover(f"third-{part}")
    ctx.cover(f"choice-{s.config['c']}")
    for i in (2, 3, 4):
        if s.config["n"] == i:
            ctx.cover(f"integer-{i}")


HARNESSES = [
    H(propose, "spaces with every kind of parameter, any bounds, defaults and draws, up to two evaluations", RS, assumptions=["random draws are any values of their range, up to two normal draws are arbitrary"],
      covers=["maximum", "fidelity-sampled", "prior", "uniform"]),
    H(spread, "any bounds; every part of the range and every choice can be drawn", RS, covers=[f"third-{i}" for i in range(3)] + [f"choice-{c}" for c in "abc"] + [f"integer-{i}" for i in (2, 3, 4)]),
]
