"""C22: ifBO continues and starts configurations step by step, by the model's scores."""
from symx.runner import H
from symx import core, rngstub
from . import mf

IF = ["neps.optimizers.multi_fidelity.ifbo.*", "neps.optimizers.bayesian_optimization.models.ftpfn.*", "neps.search_spaces.domain.Domain.*",
      "neps.search_spaces.encoding.ConfigEncoder.*"]


def T(x):
    import torch
    if core.ENG is not None:
        from symx import tshim
        return tshim._tensor(x, dtype=torch.float32)
    return torch.tensor(x, dtype=torch.float32)


class AnySampler:
    """a sampler: any point of the domains"""

    def __init__(self, ctx, ndim, rows):
        self.ctx, self.ncols, self.rows = ctx, ndim, rows

    def sample(self, n, *, to, seed=None, device=None, dtype=None):
        to = [to] * self.ncols if not isinstance(to, list) else to
        return T([[self.ctx.real("sampled", 0, 1) for d in to] for _ in range(self.rows)])


def install(ctx, rows=1):
    """the model is any function, samplers give any points"""
    from neps.optimizers.bayesian_optimization.models import ftpfn
    from neps.sampling.samplers import Sampler
    log = {"pi": [], "mean": [], "new": 0}
    C = ftpfn.FTPFNSurrogate

    def put(o, n, v):
        old = o.__dict__[n]
        setattr(o, n, v)
        ctx.on_exit(lambda: setattr(o, n, old))

    def init(self, target_path=None, version="0.0.1", device=None):
        self.device = None

    def lst(t):
        return [list(r) if isinstance(r, list) else r for r in t.tolist()]

    def mean(self, train_x, train_y, test_x):
        out = [ctx.real("fantasy", 0, 1) for _ in range(len(test_x))]
        log["mean"].append((lst(train_x), lst(train_y), lst(test_x), out))
        return T(out)

    hot = ctx.choice("position-of-the-best-sample", [0, 1, 4]) if ctx.tier == "quick" else None

    def pi(self, train_x, train_y, test_x, y_best):
        new = all(not core.is_sym(r) and r == 0 for r in test_x[:, 0].tolist())
        k = log["new"]
        log["new"] += new
        out = [0.25 if hot is not None and new and k != hot else ctx.real("score", 0, 1) for _ in range(len(test_x))]
        log["pi"].append((lst(train_x), lst(train_y), lst(test_x), out, y_best))
        return T(out)

    put(C, "__init__", init)
    put(C, "get_mean_performance", mean)
    put(C, "get_pi", pi)
    for n in ("sobol", "uniform", "borders"):
        put(Sampler, n, staticmethod(lambda ndim, **k: AnySampler(ctx, ndim, rows)))
    put(Sampler, "centered", staticmethod(lambda centers, domains, **k: AnySampler(ctx, len(domains), 1)))
    return log


FIDS = {"1to4": (1, 4, 1), "0.5to2.5": (0.5, 2.5, 1.0), "2to9by3": (2, 9, 3)}


def build(ctx, which, **kw):
    from neps.optimizers.multi_fidelity.ifbo import IFBO
    from neps.search_spaces import SearchSpace, FloatParameter, IntegerParameter
    lo, hi, step = FIDS[which]
    F = IntegerParameter if isinstance(lo, int) else FloatParameter
    sp = SearchSpace(x=FloatParameter(0.0, 1.0, **kw.pop("x", {})), e=F(lo, hi, is_fidelity=True))
    n = int((hi - lo) // step)
    fids = [hi - (n - k) * step for k in range(n + 1)]
    o = IFBO(pipeline_space=sp, step_size=step, initial_design_size=1, **kw)
    return o, fids


def history(ctx, n, fids, states, all_known=True):
    cfgs = []
    for i in range(n):
        st = states[i] if states else None
        r = ctx.choice(f"highest{i}", range(len(fids)) if i == 0 or ctx.tier != "quick" else [0, len(fids) - 1])
        st = ctx.choice(f"state{i}", ["done", "error", "pending"])
        ls = [ctx.real(f"loss{i}_{q}", 0, 1) for q in range(r + 1)]
        if st == "error":
            ls[r] = None
        cfgs.append(mf.Cfg(r, 0, st == "pending", ls, ctx.real(f"x{i}", 0, 1)))
    return cfgs


def model_phase(ctx):
    """what is asked of the model, and what its scores lead to"""
    ctx.messages_as_tokens()
    which = ctx.choice("fidelities", list(FIDS) if ctx.tier != "quick" else ["1to4", "2to9by3"])
    o, fids = build(ctx, which)
    n = ctx.choice("configurations", [1, 2])
    cfgs = history(ctx, n, fids, None)
    ts = mf.trials(ctx, cfgs, fids, reverse=ctx.choice("order", [False, True]) if ctx.tier != "quick" else cfgs[0].rung == 1)
    M = max(fids)
    lo = fids[0]

    def budget(f):
        return 1 / M + (f - lo) / (M - lo) * (1 - 1 / M)
    ctx.assume(not all(c.pending and c.rung == 0 for c in cfgs))
    o._initial_design = [{"x": 0.5, "e": lo}]
    log = install(ctx, rows=1 if ctx.tier == "quick" else 2)
    s = o.ask(ts, None)
    # what the model is trained on
    want = {}
    for i, c in enumerate(cfgs):
        for r in range(c.rung + 1):
            want[(i + 1, r)] = (c.x, None if c.pending and r == c.rung else c.losses[r], c.pending and r == c.rung)
    done = {k: v for k, v in want.items() if not v[2]}
    pend = {k: v for k, v in want.items() if v[2]}

    def rung_of(b):
        for r, f in enumerate(fids):
            if abs(b - budget(f)) < 1e-5:
                return r
        return None
    fantasy = {}
    for tx, ty, qx, out in log["mean"]:
        ks = [(int(a[0]), rung_of(a[1])) for a in tx]
        ctx.check(sorted(ks) == sorted(done), "fantasies-learn-from-the-finished", ks)
        for a, y, k in zip(tx, ty, ks):
            ctx.check(core.sym_and(ctx.near(a[2], done[k][0]), ctx.near(y, 0.0 if done[k][1] is None else 1 - done[k][1])), "learned", k)
        for a, v in zip(qx, out):
            k = (int(a[0]), rung_of(a[1]))
            ctx.check(k in pend, "fantasies-of-the-pending", k)
            ctx.check(ctx.near(a[2], pend[k][0]), "fantasy-of-the-configuration", k)
            fantasy[k] = v
    ctx.check(sorted(fantasy) == sorted(pend), "every-pending-fantasized", fantasy)
    open_ = {i + 1: c for i, c in enumerate(cfgs) if not c.pending and c.rung < len(fids) - 1}
    best, seen, all_scores = None, [], []
    for nth, (tx, ty, qx, out, y_best) in enumerate(log["pi"]):
        ks = [(int(a[0]), rung_of(a[1])) for a in tx]
        ctx.check(sorted(ks) == sorted(want), "model-learns-from-everything", ks)
        if nth in (0, len(log["pi"]) - 1):
            ws = [fantasy[k] if k in fantasy else (0.0 if want[k][1] is None else 1 - want[k][1]) for k in ks]
            ctx.check(core.sym_and(*[core.sym_and(ctx.near(a[2], want[k][0]), ctx.near(y, w)) for a, y, k, w in zip(tx, ty, ks, ws)]), "scores-learned", ks)
            ctx.check(core.sym_and(*[ctx.le(w - 1e-6, y_best) for w in ws]), "threshold-at-least-the-best", ks)
        for row, sc in zip(qx, out):
            all_scores.append((row, sc))
            i = int(row[0])
            if i == 0:
                # a new configuration, some steps ahead of the lowest fidelity
                ctx.check(core.sym_and(ctx.le(budget(lo), row[1] + 1e-6), ctx.le(row[1], 1.0)), "horizon", row[1])
            else:
                ctx.check(i in open_, "continues-only-open-configurations", i)
                c = open_[i]
                ctx.check(ctx.near(row[2], c.x), "continues-with-the-configuration", i)
                ctx.check(core.sym_and(ctx.le(budget(fids[c.rung]), row[1]), ctx.le(row[1], 1.0)), "horizon-ahead", row[1])
                seen.append(i)
    ctx.check(sorted(seen) == sorted(open_), "every-open-configuration-considered", seen)
    # the decision
    top = [core.sym_and(*[ctx.le(o2, sc) for _, o2 in all_scores]) for _, sc in all_scores]
    known = set(ts)
    ctx.check(s.id not in known, "fresh-id", s.id)
    ctx.check(set(s.config) == {"x", "e"}, "parameters", set(s.config))
    x = s.config["x"]
    if s.previous_config_id is None:
        ctx.check(s.id == f"{n}_0", "new-id", s.id)
        ctx.check(s.config["e"] == lo and type(s.config["e"]) is type(lo), "new-at-the-lowest-fidelity", s.config["e"])
        ctx.check(core.sym_or(*[core.sym_and(t, ctx.near(row[2], x)) for t, (row, _) in zip(top, all_scores) if int(row[0]) == 0]), "best-score-new", x)
        ctx.cover("new")
    else:
        i, r = map(int, s.previous_config_id.split("_"))
        ctx.check(i + 1 in open_ and open_[i + 1].rung == r, "continues-from-the-highest", s.previous_config_id)
        c = open_[i + 1]
        ctx.check(s.id == f"{i}_{r + 1}", "continuation-id", s.id)
        ctx.check(abs(s.config["e"] - fids[r + 1]) < 1e-5 and type(s.config["e"]) is type(lo), "one-step-further", s.config["e"])
        ctx.check(ctx.near(x, c.x), "same-configuration", x)
        ctx.check(core.sym_or(*[t for t, (row, _) in zip(top, all_scores) if int(row[0]) == i + 1]), "best-score-continued", i)
        ctx.cover("continued-with-pending" if pend else "continued")


def initial_phase(ctx):
    """configurations of the initial design, in order, at the lowest fidelity, whatever the others are doing"""
    ctx.messages_as_tokens()
    which = ctx.choice("fidelities", list(FIDS))
    default = ctx.choice("default-first", [False, True])
    o, fids = build(ctx, which, sample_default_first=default, x=dict(default=0.25))
    rows = []
    from neps.sampling.samplers import Sampler
    old = Sampler.__dict__["sobol"]
    ctx.on_exit(lambda: setattr(Sampler, "sobol", old))

    class S(AnySampler):
        def sample(self, n, *, to, **k):
            rows.extend(ctx.real("sampled", 0, 1) for _ in range(n))
            return T([[r] for r in rows])
    Sampler.sobol = staticmethod(lambda ndim, **k: S(ctx, ndim, 1))
    n = ctx.choice("known", [0, 1] if default else [0])
    hist = {}
    for i in range(n):
        st = ctx.choice("state", ["pending", "evaluating", "error", "done"])
        ls = None if st == "error" else ctx.real("loss", 0, 1) if st == "done" else st
        hist[f"{i}_0"] = mf.trial(f"{i}_0", {"x": 0.25, "e": fids[0]}, ls)
    s = o.ask(hist, None)
    ctx.check(s.id == f"{n}_0" and s.previous_config_id is None, "initial-id", s.id)
    ctx.check(s.config["e"] == fids[0] and type(s.config["e"]) is type(fids[0]), "initial-at-the-lowest-fidelity", s.config["e"])
    ctx.check(set(s.config) == {"x", "e"}, "parameters", set(s.config))
    if default and n == 0:
        ctx.check(s.config["x"] == 0.25, "default-first", s.config["x"])
        ctx.cover("default")
    else:
        ctx.check(ctx.near(s.config["x"], rows[0]), "as-sampled", s.config["x"])
        ctx.cover("sampled")


def step_size(ctx):
    """the fidelity range is cut to a whole number of steps that ends at the given maximum"""
    from neps.optimizers.multi_fidelity.ifbo import IFBO
    from neps.search_spaces import SearchSpace, FloatParameter, IntegerParameter
    ctx.messages_as_tokens()
    if ctx.choice("integer", [False, True]):
        step = ctx.choice("step", [1, 2, 3])
        lo, hi = ctx.int("lower", 1, 5), ctx.int("upper", 1, 5 + 4 * step)
        F = IntegerParameter
    else:
        step = ctx.choice("step", [0.5, 1, 3.0])
        lo, hi = ctx.real("lower", 0, 10, lo_open=True), ctx.real("upper", 0, 30)
        F = FloatParameter
    ctx.assume(core.sym_and(lo < hi, hi - lo < 4 * step))
    sp = SearchSpace(x=FloatParameter(0.0, 1.0), e=F(lo, hi, is_fidelity=True))
    try:
        o = IFBO(pipeline_space=sp, step_size=step)
    except ValueError:
        ctx.check(hi - lo < step, "step-refused", (lo, hi))
        ctx.cover("refused")
        return
    ctx.check(hi - lo >= step, "step-accepted", (lo, hi))
    f = o.pipeline_space.fidelity
    ctx.check(ctx.eq(f.upper, hi), "maximum-kept", f.upper)
    ctx.check(core.sym_and(ctx.le(lo, f.lower), f.lower - lo < step), "least-cut", f.lower)
    n = o._budget_ix_domain.upper
    ctx.check(ctx.eq(f.lower + n * step, hi), "whole-steps", n)
    ctx.check(type(f) is F and f.is_fidelity and f.log is False, "kind-kept")
    ctx.check(ctx.eq(sp.fidelity.lower, lo), "given-space-untouched")
    for k in range(5):
        if k <= n:
            v = o._fid_domain.cast_one(k, frm=o._budget_ix_domain)
            ctx.check(ctx.eq(v, f.lower + k * step), "step-k", (k, v))
            ctx.check(o._budget_ix_domain.cast_one(v, frm=o._fid_domain) == k, "index-of-step-k", k)
    ctx.cover("cut")


A = ["tensors hold exact reals (float32 rounding is outside)", "the model's fantasies and scores are any numbers in [0, 1]",
     "each sampler gives one (thorough: two) arbitrary points of its domain instead of hundreds", "quick: the scores of all new points but one, at any position, are equal"]
HARNESSES = [
    H(model_phase, "one or two configurations with up to three fidelities each, any state, losses and scores", IF, assumptions=A,
      covers=["new", "continued", "continued-with-pending"], sym_alloc=True),
    H(initial_phase, "three fidelity ranges, with and without the default, any sampled points", [*IF, "neps.optimizers.initial_design.*"], assumptions=A, covers=["default", "sampled"], sym_alloc=True),
    H(step_size, "integer and float fidelities of up to four steps", IF, assumptions=A, covers=["refused", "cut"], sym_alloc=True),
]
