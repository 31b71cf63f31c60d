"""C23: Bayesian optimization models all evaluations and proposes what maximises its acquisition."""
import itertools

from symx.runner import H
from symx import core
from . import bo, mf

BO = ["neps.optimizers.bayesian_optimization.optimizer.*", "neps.optimizers.bayesian_optimization.models.gp.*", "neps.search_spaces.encoding.*",
      "neps.search_spaces.domain.Domain.*"]


def T(x, torch_dtype=None):
    import torch
    d = torch_dtype or torch.float64
    if core.ENG is not None:
        from symx import tshim
        return tshim._tensor(x, dtype=d)
    return torch.tensor(x, dtype=d)


SPACES = {
    "float": dict(x=("float", -2.0, 6.0)),
    "float-int": dict(k=("int", 2, 7), x=("float", -2.0, 6.0)),
    "mixed": dict(x=("float", 1.0, 3.0), c=("cat", ["r", "g", "b"])),
    "mixed-two": dict(d=("cat", [True, False]), x=("float", 1.0, 3.0), c=("cat", [3, 4, 5])),
    "cats": dict(c=("cat", ["r", "g", "b"]), a=("cat", [1.5, 2.5])),
}


def space(which, prior=False, const=True):
    from neps.search_spaces import SearchSpace, FloatParameter, IntegerParameter, CategoricalParameter, ConstantParameter
    ps = {}
    for k, v in SPACES[which].items():
        if v[0] == "cat":
            ps[k] = CategoricalParameter(v[1], **(dict(default=v[1][1], default_confidence="high") if prior else {}))
        else:
            ps[k] = (FloatParameter if v[0] == "float" else IntegerParameter)(v[1], v[2], **(dict(default=v[0] == "int" and 3 or 2.5, default_confidence="low") if prior else {}))
    if const:
        ps["b"] = ConstantParameter("fixed")
    return SearchSpace(**ps)


def value(ctx, which, k, tag):
    v = SPACES[which][k]
    if v[0] == "cat":
        return ctx.choice(f"{k}{tag}", v[1]) if ctx.tier != "quick" or tag == 0 else v[1][tag % len(v[1])]
    if v[0] == "int":
        return ctx.int(f"{k}{tag}", v[1], v[2])
    return ctx.real(f"{k}{tag}", v[1], v[2])


def coded(which, k, x):
    v = SPACES[which][k]
    if v[0] == "cat":
        return v[1].index(x)
    return (x - v[1]) / (v[2] - v[1])


def close(ctx, a, b, tol=1e-6):
    return core.sym_and(a - b <= tol, b - a <= tol)


def in_bin(ctx, spec, v, c):
    """c lies in the v-th of equally wide bins (their borders can go either way)"""
    n = spec[2] - spec[1] + 1
    return close(ctx, (v - spec[1] + 0.5) / n, c, 0.5 / n + 1e-3)


def row_is(ctx, which, row, cfg):
    names = sorted(SPACES[which])
    conds = []
    for v, k in zip(row, names):
        if SPACES[which][k][0] == "int":
            conds.append(in_bin(ctx, SPACES[which][k], cfg[k], v))
        else:
            conds.append(close(ctx, v, coded(which, k, cfg[k])))
    return core.sym_and(len(row) == len(names), *conds)


def history(ctx, which, n, costs):
    out = {}
    info = []
    for i in range(n):
        cfg = {k: value(ctx, which, k, i) for k in SPACES[which]}
        cfg["b"] = "fixed"
        st = ctx.choice(f"state{i}", ["done", "error", "pending"] if ctx.tier == "quick" else ["done", "error", "pending", "evaluating"])
        ls = {"done": lambda: ctx.real(f"loss{i}", -100, 100), "error": lambda: None}.get(st, lambda: st)()
        c = ctx.choice(f"cost{i}", [None, "cost"]) if costs and st in ("done", "error") else None
        if c:
            c = ctx.real(f"cost{i}", 0.001, 50)
        out[str(i + 1)] = mf.trial(str(i + 1), cfg, ls, cost=c)
        info.append((cfg, st, ls, c))
    return out, info


def model_phase(ctx):
    """what the surrogate is trained on, what is asked of the acquisition's optimizer, and what its answer becomes"""
    from neps.optimizers.bayesian_optimization.optimizer import BayesianOptimization
    from neps.state.optimizer import BudgetInfo
    ctx.messages_as_tokens()
    quick = ctx.tier == "quick"
    which = ctx.choice("space", list(SPACES))
    mode = ctx.choice("mode", ["plain", "prior", "cost"] + ([] if quick else ["both"]))
    if quick and which not in ("float", "mixed") and mode != "plain":
        return
    prior, cost = mode in ("prior", "both"), mode in ("cost", "both")
    logs = ctx.choice("log-costs", [True, False]) if cost else True
    n = ctx.choice("trials", [1, 2, 3] if which in ("float",) or not quick else [2])
    sp = space(which, prior)
    o = BayesianOptimization(pipeline_space=sp, use_priors=prior, use_cost=cost, cost_on_log_scale=logs)
    o.init_design = [{}] * (ctx.choice("design", [0, 1]) if prior or not quick else 1)
    ts, info = history(ctx, which, n, cost)
    obs = [x for x in info if x[1] == "done"]
    ctx.assume(bool(obs))
    if cost:
        ctx.assume(any(x[3] is not None for x in info))
    log = bo.install(ctx, len(SPACES[which]))
    budget = None
    if cost:
        used, total = ctx.real("used", 0, 100), ctx.real("budget", 1, 100)
        ctx.assume(used <= total)
        budget = BudgetInfo(max_cost_budget=total, used_cost_budget=used)
    s = o.ask(ts, budget)
    # the model of the losses
    done = [x for x in info if x[1] in ("done", "error")]
    pend = [x for x in info if x[1] not in ("done", "error")]
    gp = log.gps[0]
    ctx.check(len(log.gps) == 1 + cost and len(log.acq) == 1 and len(log.opt) == 1, "one-model", (len(log.gps), len(log.acq)))
    ctx.check(len(gp.x) == len(done), "models-every-finished-evaluation", len(gp.x))
    ctx.check(core.sym_and(*[row_is(ctx, which, r, d[0]) for r, d in zip(gp.x, done)]), "configurations-learned", gp.x)
    for y, d in zip(gp.y, done):
        if d[1] == "done":
            ctx.check(ctx.eq(y, d[2]), "losses-learned", y)
        else:
            # a failure counts as a loss in the middle of those seen
            ctx.check(core.sym_or(*[ctx.eq(y, q[2]) for q in obs]), "failure-as-a-seen-loss", y)
            for a in obs:
                below = [core.sym_and(ctx.eq(y, a[2]), core.sym_not(q[2] <= a[2])) for q in obs]
                above = [core.sym_and(ctx.eq(y, a[2]), core.sym_not(q[2] >= a[2])) for q in obs]
                k = len(obs) // 2
                for bad in (below, above):
                    for sub in itertools.combinations(bad, k + 1):
                        ctx.check(core.sym_not(core.sym_and(*sub)), "failure-as-the-median", y)
            ctx.cover("failure")
    # the acquisition: minimising, aware of what is running
    a = log.acq[0]
    ctx.check(a.model is gp and a.x == gp.x or len(a.x) == len(gp.x) and a.model is gp, "acquisition-of-the-model")
    ctx.check(core.sym_and(*[row_is(ctx, which, r, d[0]) for r, d in zip(a.x, done)]), "acquisition-baseline")
    w = bo.rows(a.objective.weights)
    ctx.check(len(w) == 1 and w[0] < 0, "minimises", w)
    ctx.check((a.pending is None or len(a.pending) == 0) if not pend else a.pending is not None and len(a.pending) == len(pend), "knows-the-pending", a.pending)
    if pend:
        ctx.check(core.sym_and(*[row_is(ctx, which, r, d[0]) for r, d in zip(a.pending, pend)]), "pending-configurations", a.pending)
        ctx.cover("pending")
    # fitted before used
    ctx.check(any(f is gp for f in log.fits), "model-fitted")
    top = log.opt[0]
    f = top[0]
    layers = []
    while isinstance(f, tuple):
        layers.append(f[0])
        f = f[1]
    ctx.check(f is a, "optimizes-the-acquisition", layers)
    if prior:
        import math
        ctx.check(len(log.pibo) <= 1 and layers.count("pibo") == len(log.pibo), "prior-weighted-once")
        nd = len(SPACES[which])
        left = math.exp(-(n - len(o.init_design)) / nd)
        if left > 1e-3:
            ctx.check(len(log.pibo) == 1, "prior-weighted", left)
        if log.pibo:
            k = log.pibo[0][2]
            ctx.check(k["prior"] is o.prior and abs(k["prior_exponent"] - left) < 1e-9, "prior-exponent", k["prior_exponent"])
            xd = k["x_domain"]
            ctx.check(isinstance(xd, list) and xd == o.encoder.domains, "prior-sees-the-encoding")
        # the prior's columns follow the encoder's
        ctx.check([d.cardinality for d in o.encoder.domains] == [len(SPACES[which][q][1]) if SPACES[which][q][0] == "cat" else o.encoder.transformers[q].domain.cardinality for q in sorted(SPACES[which])], "column-order")
        ctx.cover("prior")
    else:
        ctx.check("pibo" not in layers, "no-prior")
    if cost:
        known = [x for x in done if x[3] is not None]
        cg = log.gps[1]
        ctx.check(len(cg.x) == len(known) and core.sym_and(*[row_is(ctx, which, r, d[0]) for r, d in zip(cg.x, known)]), "cost-model-configurations", cg.x)
        ctx.check(core.sym_and(*[ctx.eq(y, d[3]) for y, d in zip(cg.y, known)]), "cost-model-costs", cg.y)
        ctx.check(any(q is cg for q in log.fits), "cost-model-fitted")
        names = repr(type(cg.transform)) + repr(list(cg.transform.keys()) if hasattr(cg.transform, "keys") else "")
        ctx.check(("log" in names) == logs, "cost-scale", names)
        ctx.check(layers.count("cool") == 1 and len(log.cool) == 1 and log.cool[0][1] is cg, "cooled-by-the-cost")
        ctx.check(close(ctx, log.cool[0][2] * total, used, 1e-6), "budget-share", log.cool[0][2])
        ctx.cover("cost" if len(known) == len(done) else "costs-missing")
    else:
        ctx.check("cool" not in layers, "no-cost")
    # where it is maximised
    names = sorted(SPACES[which])
    card = {j: len(SPACES[which][k][1]) for j, k in enumerate(names) if SPACES[which][k][0] == "cat"}
    lo, hi = top[1]
    ctx.check(all((l, u) == ((0, card[j] - 1) if j in card else (0, 1)) for j, (l, u) in enumerate(zip(lo, hi))) and len(lo) == len(names), "searched-box", (lo, hi))
    ctx.check(top[3] == 1 and top[4] >= 1 and top[5] >= 1, "one-candidate", top[3:])
    if card:
        want = {tuple(z) for z in itertools.product(*[range(c) for c in card.values()])}
        got = [tuple(ff[j] for j in card) for ff in top[2] if set(ff) == set(card)]
        ctx.check(len(got) == len(top[2]) == len(want) and set(got) == want, "every-choice-tried", top[2])
    else:
        ctx.check(top[2] is None, "nothing-fixed")
    # the proposal
    ctx.check(s.id == str(n + 1) and s.previous_config_id is None and s.id not in ts, "fresh-id", s.id)
    ctx.check(set(s.config) == set(SPACES[which]) | {"b"} and s.config["b"] == "fixed", "parameters", set(s.config))
    for j, k in enumerate(names):
        v, c = s.config[k], log.candidate[j]
        spec = SPACES[which][k]
        if spec[0] == "cat":
            ctx.check(v == spec[1][int(c)] and type(v) is type(spec[1][int(c)]), "proposed-choice", v)
        elif spec[0] == "float":
            ctx.check(close(ctx, v, spec[1] + c * (spec[2] - spec[1])), "proposed-value", v)
            ctx.check(core.sym_and(ctx.le(spec[1], v), ctx.le(v, spec[2])), "legal", v)
        else:
            ctx.check(core.sym_and(spec[1] <= v, v <= spec[2], in_bin(ctx, spec, v, c)), "proposed-integer", v)
    ctx.cover("proposed")


class Weigh:
    """stands in for a prior, or for the model of the costs"""
    num_outputs = 1

    def __init__(self, ctx, logs, cols=2):
        self.ctx, self.seen, self.logs, self.cols = ctx, [], logs, cols

    def log_prob(self, x, *, frm):
        self.seen.append((bo.rows(x), frm))
        self.out = [[self.ctx.real("log-density", -20, 5) for _ in b] for b in bo.rows(x)]
        return T(self.out)

    def prob(self, x, *, frm):
        self.seen.append((bo.rows(x), frm))
        self.out = [[self.ctx.real("density", 0.001, 5) for _ in b] for b in bo.rows(x)]
        return T(self.out)

    def posterior(self, x):
        self.seen.append((bo.rows(x), None))
        self.out = [[self.ctx.real("predicted-cost", 0.001, 50) for _ in b] for b in bo.rows(x)]
        out = T([[[v] for v in b] for b in self.out])

        class P:
            mean = out
        return P


def weights(ctx):
    """how the acquisition is weighted by the prior and by the cost"""
    import torch
    from botorch.acquisition import SampleReducingMCAcquisitionFunction
    from neps.optimizers.bayesian_optimization.acquisition_functions.pibo import pibo_acquisition
    from neps.optimizers.bayesian_optimization.acquisition_functions.cost_cooling import cost_cooled_acq
    logs = ctx.choice("log", [True, False])
    mc = ctx.choice("monte-carlo", [True, False])
    q = ctx.choice("pending", [0, 1])
    kind = ctx.choice("weight", ["prior", "cost", "both"])
    nb = ctx.choice("batch", [1, 2])
    samples = 2 if ctx.tier != "quick" or logs or nb + q < 2 else 1
    if ctx.tier == "quick":
        ctx.assume(not (nb == 2 and q == 1 and not logs))
    base, keep = [], []

    def values(x):
        # sample x batch x point
        b = bo.rows(x)
        base.append(b)
        return T([[[ctx.real("acq", -10, 10) for _ in p] for p in b] for _ in range(samples)])

    class MC(SampleReducingMCAcquisitionFunction):
        _log = logs

        def __init__(self):
            torch.nn.Module.__init__(self)
            self.model, self.X_pending = None, None

        def set_X_pending(self, p):
            self.X_pending = p

        def _non_reduced_forward(self, X):
            ctx.check(self.X_pending is None, "pending-counted-once")
            keep.append(values(X))
            return keep[-1]

        def _sample_forward(self, obj_values):
            raise NotImplementedError

        def _q_reduction(self, a):
            return a.sum(dim=-1)

        def _sample_reduction(self, a):
            return a.sum(dim=0)

    class Plain(torch.nn.Module):
        _log = logs

        def __init__(self):
            super().__init__()
            self.model, self.X_pending = None, None

        def set_X_pending(self, p):
            self.X_pending = p

        def forward(self, X):
            ctx.check(self.X_pending is None, "pending-counted-once")
            base.append(bo.rows(X))
            keep.append(T([ctx.real("acq", -10, 10) for _ in base[-1]]))
            return keep[-1]

    acq = MC() if mc else Plain()
    if not mc:
        # an analytic acquisition looks at one point at a time
        ctx.assume(q == 0)
    pend = torch.tensor([[0.75, 1.0]], dtype=torch.float64) if q else None
    acq.X_pending = pend
    top = acq
    weigh = []
    dom = ["the", "domains"]
    exponent = share = None
    if kind in ("prior", "both"):
        exponent = ctx.real("exponent", 0, 1) if logs else ctx.choice("exponent", [0.0, 0.5, 1.0])
        w = Weigh(ctx, logs)
        top = pibo_acquisition(top, prior=w, prior_exponent=exponent, x_domain=dom)
        weigh.append(("prior", w))
    if kind in ("cost", "both"):
        ctx.assume(kind == "cost" or not mc)
        share = ctx.real("used-share", 0, 1) if logs else ctx.choice("used-share", [0.0, 0.5, 1.0])
        w = Weigh(ctx, logs)
        top = cost_cooled_acq(top, model=w, used_budget_percentage=share)
        weigh.append(("cost", w))
    X = torch.tensor([[[0.25, 0.0]], [[0.5, 1.0]]][:nb], dtype=torch.float64)
    r = bo.rows(top(X))
    # botorch drops the batch of one
    r = r if isinstance(r, list) else [r]
    ctx.check(len(r) == nb, "one-value-per-candidate", r)
    pts = [[*x, *(pend.tolist() if q else [])] for x in X.tolist()]
    ctx.check(base == [pts], "acquisition-at-the-candidates", base)
    for k, w in weigh:
        ctx.check([x for x, _ in w.seen] == [pts], "weight-at-the-candidates", w.seen)
        ctx.check(k == "cost" or w.seen[0][1] == dom, "density-in-the-domain", w.seen)
    v = bo.rows(keep[-1])
    v = v if mc else [[[b] for b in v]]

    def root(x):
        return x ** 0.5

    for b in range(nb):
        per = []
        for s in range(len(v)):
            pt = []
            for j in range(1 + q):
                a = v[s][b][j]
                for k, w in weigh:
                    z = w.out[b][j]
                    if k == "prior":
                        if logs:
                            a = a + z * exponent
                        else:
                            a = a * {0.0: 1, 1.0: z, 0.5: root(z)}[exponent]
                    else:
                        al = 1 - share
                        if logs:
                            a = a - al * Ln(z)
                        else:
                            c = {0.0: 1, 1.0: z, 0.5: root(z)}[al]
                            a = a / c if bool(a > 0) else a * c
                pt.append(a)
            m = pt[0]
            for z in pt[1:]:
                m = m + z
            per.append(m)
        want = per[0] if len(per) == 1 else per[0] + per[1]
        ctx.check(ctx.near(r[b], want, 1e-6), "weighted", (r[b], want))
    ctx.cover(f"{kind}-{'log' if logs else 'plain'}")
    if q:
        ctx.cover("with-pending")


def Ln(x):
    import math
    return core.sym_log(x, "np") if core.is_sym(x) else math.log(x)


def initial_phase(ctx):
    """the initial design in order, without a model; later the same way for as long as nothing can be learned"""
    from neps.optimizers.bayesian_optimization.optimizer import BayesianOptimization
    from neps.sampling.samplers import Sampler
    from neps.sampling.priors import CenteredPrior, UniformPrior
    ctx.messages_as_tokens()
    which = ctx.choice("space", ["float", "float-int", "mixed"] if ctx.tier != "quick" else ["float", "mixed"])
    prior = ctx.choice("prior", [False, True])
    first = ctx.choice("default-first", [False, True])
    size = ctx.choice("initial-size", [None, 1, 3])
    sp = space(which, prior=True)
    o = BayesianOptimization(pipeline_space=sp, use_priors=prior, initial_design_size=size, sample_default_first=first)
    names = sorted(SPACES[which])
    want = len(names) if size is None else size
    live = 1 if ctx.tier == "quick" else 2
    drawn = []
    sources = []

    def draw(self, n, *, to, seed=None, device=None, dtype=None):
        ctx.check(n >= 1, "samples-something", n)
        rows = []
        for i in range(n):
            r = []
            for j, k in enumerate(names):
                if SPACES[which][k][0] == "cat":
                    r.append((len(drawn) + i + j) % len(SPACES[which][k][1]))
                elif SPACES[which][k][0] == "int":
                    # within an integer's bin
                    r.append([0.02, 0.35, 0.98, 0.6, 0.75][(len(drawn) + i) % 5])
                elif i < live:
                    v = ctx.real("sampled", 0, 1)
                    for q in (0.11, 0.22, 0.33, 0.44, 0.55):
                        ctx.assume(core.sym_not(v == q))
                    for q in rows:
                        ctx.assume(core.sym_not(v == q[j]))
                    r.append(v)
                else:
                    r.append(3 + i)
            rows.append(r)
        drawn.extend(rows)
        sources.append(self)
        # only the first ones are symbolic, the others are told apart by hand
        rows = [[(c if not (SPACES[which][k][0] == "float" and i >= live) else 0.11 * i) for c, k in zip(r, names)] for i, r in enumerate(rows)]
        drawn[-len(rows):] = rows
        return T(rows)

    class Sob:
        sample = draw

        def __init__(self, ndim):
            ctx.check(ndim == len(names), "sampler-dimensions", ndim)
            self.ncols = ndim

    old = Sampler.__dict__["sobol"]
    ctx.on_exit(lambda: setattr(Sampler, "sobol", old))
    Sampler.sobol = staticmethod(lambda ndim, **k: Sob(ndim))
    for C in (CenteredPrior, UniformPrior):
        oldf = C.__dict__["sample"]
        ctx.on_exit(lambda C=C, oldf=oldf: setattr(C, "sample", oldf))
        C.sample = draw
    total = want + first
    log = bo.install(ctx, len(names))
    late = ctx.choice("after-the-design", [False, True])
    n = total if late else ctx.choice("known", sorted({0, min(1, total - 1), total - 1}))
    sts = ctx.choice("states", ["pending", "error", "done"])
    if late and sts == "done":
        return
    hist = {}
    base = {k: (SPACES[which][k][1][0] if SPACES[which][k][0] == "cat" else SPACES[which][k][2]) for k in names}
    for i in range(n):
        hist[str(i + 1)] = mf.trial(str(i + 1), {**base, "b": "fixed"}, {"pending": "pending", "error": None}.get(sts, 1.0))
    s = o.ask(hist, None)
    ctx.check(not log.gps and not log.opt, "no-model-yet")
    ctx.check(s.id == str(n + 1) and s.previous_config_id is None, "fresh-id", s.id)
    ctx.check(set(s.config) == set(names) | {"b"} and s.config["b"] == "fixed", "parameters", set(s.config))
    if first and n == 0:
        ctx.check(all(s.config[k] == sp.hyperparameters[k].default for k in names), "default-first", s.config)
        ctx.cover("default")
        return
    if late:
        row = None
        opts = drawn[-2:] if len(sources) > 1 else drawn
        ctx.check(len(sources) == 2, "keeps-sampling", len(sources))
        ctx.cover("nothing-to-learn-from")
    else:
        opts = [drawn[n - first]]
        ctx.cover("sampled")
    if prior:
        ctx.check(all(src is o.prior for src in sources), "samples-the-prior")
    else:
        ctx.check(all(type(src) is Sob for src in sources), "samples-uniformly")

    def match(row):
        cs = []
        for v, k in zip(row, names):
            spec = SPACES[which][k]
            if spec[0] == "cat":
                cs.append(s.config[k] == spec[1][v])
            elif spec[0] == "float":
                cs.append(close(ctx, s.config[k], spec[1] + v * (spec[2] - spec[1])))
            else:
                cs.append(in_bin(ctx, spec, s.config[k], v))
        return core.sym_and(*cs)
    ctx.check(core.sym_or(*[match(r) for r in opts]), "as-sampled", (s.config, opts))


A = ["tensors hold exact reals", "the Gaussian process, its fit and the optimizer of the acquisition are botorch's: replaced by recorders, the optimizer returns any point it may",
     "losses within [-100, 100], costs within [0.001, 50]"]
HARNESSES = [
    H(model_phase, "five spaces, up to three evaluations in any state, with any losses, costs, budgets and candidates", BO, assumptions=A,
      covers=["failure", "pending", "prior", "cost", "costs-missing", "proposed"], sym_alloc=True),
    H(weights, "acquisitions on a log scale or not, by sample or not, with a pending point or not; any values, densities, costs; any exponent and share on a log scale, 0, 1/2 and 1 otherwise",
      ["neps.optimizers.bayesian_optimization.acquisition_functions.*"], assumptions=A, covers=["prior-log", "cost-log", "both-log", "prior-plain", "cost-plain", "both-plain", "with-pending"], sym_alloc=True),
    H(initial_phase, "three spaces, three design sizes, any sampled points", [*BO, "neps.optimizers.initial_design.*"], assumptions=A,
      covers=["default", "sampled", "nothing-to-learn-from"], sym_alloc=True),
]
