"""C17: samplers, priors and the initial design."""
from symx.runner import H
from symx import core, rngstub
from checks.C13 import T, B, param, KINDS, CATS

SAM = ["neps.sampling.samplers.*", "neps.sampling.priors.*", "neps.search_spaces.domain.Domain.*"]


class Recorded:
    """in place of TruncatedNormal: keeps what it was made with, samples anything in its support, has an arbitrary density"""
    ctx = None
    n = 0

    def __init__(self, loc, scale, a, b, device=None, validate_args=None):
        self.loc, self.scale, self.a, self.b = loc, scale, a, b
        Recorded.n += 1
        self.c0 = Recorded.ctx.real(f"density{Recorded.n}.0", -10, 10)
        self.c1 = Recorded.ctx.real(f"density{Recorded.n}.1", -10, 10)

    def at(self, v):
        return self.c0 + self.c1 * v

    def sample(self, shape=()):
        import torch
        d = rngstub.ACTIVE
        return rngstub.TorchRandom(d)._t(tuple(shape), lambda: d.u01(True), torch.float64)

    def log_prob(self, x):
        return self.c0 + self.c1 * x


class RecordedCat(Recorded):
    def __init__(self, probs=None, logits=None, validate_args=None):
        super().__init__(None, None, None, None)
        self.probs = probs

    def sample(self, shape=()):
        import torch
        d = rngstub.ACTIVE
        ps = self.probs.tolist()
        return rngstub.TorchRandom(d)._t(tuple(shape), lambda: d.index(len(ps), ps), torch.int64)


def stub(ctx):
    import torch
    import neps.sampling.priors as pr
    Recorded.ctx, Recorded.n = ctx, 0
    for mod, name, val in ((pr, "TruncatedNormal", Recorded), (torch.distributions, "Categorical", RecordedCat)):
        old = getattr(mod, name)
        setattr(mod, name, val)
        ctx.on_exit(lambda mod=mod, name=name, old=old: setattr(mod, name, old))


class Draws:
    """remembers the uniform draws"""

    def __init__(self, ctx):
        self.d = rngstub.install(ctx)
        self.us = []
        u01 = self.d.u01

        def rec(incl=False):
            u = u01(incl)
            self.us.append(u)
            return u
        self.d.u01 = rec


def dom(ctx, kind, tag):
    return param(ctx, kind, tag)[0].domain


def samplers(ctx):
    import torch
    from neps.sampling.samplers import Sampler, Sobol, BorderSampler, WeightedSampler
    from neps.sampling.priors import UniformPrior, Prior
    ctx.messages_as_tokens()
    stub(ctx)
    name = ctx.choice("sampler", ["sobol", "uniform", "border", "centered", "weighted"])
    kinds = ctx.choice("kinds", [("float", "int"), ("int", "cat")] if name in ("border", "weighted") or ctx.tier == "quick" and name == "uniform" else
                       [("float", "int"), ("int", "cat"), ("float-log", "int-log")])
    ds = [dom(ctx, k, f"d{i}-") for i, k in enumerate(kinds)]
    form = ctx.choice("to", ["list", "one"]) if kinds == ("int", "cat") else "list"
    to = ds if form == "list" else ds[0]
    ints = all(not d.preffered_dtype.is_floating_point for d in (ds if form == "list" else ds[:1]))
    dtype = ctx.choice("dtype", [None, torch.int64] if ints else [None, torch.float64] if ctx.tier != "quick" else [None])
    if name == "centered" or name == "weighted":
        # one column with a prior, one without
        c = Prior.make_centered([ds[0], ds[1]], centers=[None, (ds[1].lower, 0.5)])
    s = {"sobol": lambda: Sobol(2), "uniform": lambda: UniformPrior(2), "border": lambda: BorderSampler(2), "centered": lambda: c,
         "weighted": lambda: WeightedSampler([UniformPrior(2), c], torch.tensor([0.5, 0.5]))}[name]()
    dr = Draws(ctx)
    shape = ctx.choice("shape", ["n", "size"]) if dtype is None else "n"
    n = 2 if name != "weighted" else 1
    x = s.sample(n if shape == "n" else torch.Size((n, 1)), to=to, dtype=dtype)
    ctx.check(tuple(x.shape) == ((n, 2) if shape == "n" else (n, 1, 2)), "shape")
    x = x.view(n, 2)
    ctx.check(s.ncols == 2, "columns")
    for i in range(n):
        for j in (0, 1):
            d = ds[j] if form == "list" else ds[0]
            v = x[i, j].item()
            ctx.check(core.sym_and(ctx.le(d.lower, v), ctx.le(v, d.upper)), "in-domain", v)
            if d.round:
                ctx.check(core.sym_or(*[ctx.eq(v, d.lower + k) for k in range(d.cardinality)]), "integer", v)
            if name in ("sobol", "uniform"):
                ctx.check(ctx.eq(v, d.from_unit(T([dr.us[2 * i + j]]))[0].item()), "place-of-the-draw", v)
            if name == "border":
                ctx.check(core.sym_or(ctx.eq(v, d.lower), ctx.eq(v, d.upper)), "on-the-border", v)
    if name == "border":
        a, b = x[0], x[1]
        ctx.check(core.sym_or(*[core.sym_not(ctx.eq(a[j].item(), b[j].item())) for j in (0, 1)]), "borders-differ")
    ctx.cover(name + "/" + ("int" if dtype is torch.int64 else "float"))


def prior_of_parameters(ctx):
    """each column of a prior belongs to the parameter at that place, centred at its default"""
    from neps.sampling.priors import Prior
    from neps.sampling.distributions import UNIT_UNIFORM_DIST
    ctx.messages_as_tokens()
    stub(ctx)
    ks = [ctx.choice(f"k{i}", KINDS) for i in range(2)]
    ps, centers, confs = [], [], []
    for i, k in enumerate(ks):
        p, val, r = param(ctx, k, f"p{i}-")
        if ctx.choice(f"has-default{i}", [False, True]):
            v = val("default")
            p.set_default(v)
            conf = ctx.choice(f"confidence{i}", ["low", "high"])
            p.set_default_confidence_score(conf)
            centers.append((v, r, {"low": 0.25, "high": 0.75}[conf]))
        else:
            centers.append(None)
        ps.append(p)
    pr = Prior.from_parameters(ps)
    ctx.check(pr.ncols == 2, "columns")
    for p, k, c, d in zip(ps, ks, centers, pr.distributions):
        if c is None:
            ctx.check(d is UNIT_UNIFORM_DIST or d == UNIT_UNIFORM_DIST, "uniform-without-default")
            ctx.cover("uniform")
            continue
        v, r, conf = c
        if k == "cat":
            probs = d.distribution.probs.tolist()
            ctx.check(len(probs) == len(r) and abs(sum(probs) - 1) < 1e-9, "probabilities")
            i = r.index(v)
            ctx.check(abs(probs[i] - conf) < 1e-9, "confidence-on-the-default", probs)
            rest = [x for j, x in enumerate(probs) if j != i]
            ctx.check(max(rest) - min(rest) < 1e-9, "rest-uniform")
        else:
            ctx.check(ctx.eq(d.distribution.loc, p.domain.to_unit_one(v + 0.0)), "centred-at-the-default")
            ctx.check(ctx.eq(float(d.distribution.scale), 1 - conf), "confidence")
        ctx.cover(k)


def parameter_prior(ctx):
    """the prior of one parameter is the normal around its present default, on its own scale, as wide as its present confidence says"""
    import math
    from .C11 import mk_float, mk_int, real_in, int_in, B
    integer = ctx.choice("integer", [False, True])
    p, lo, hi = (mk_int if integer else mk_float)(ctx, default=False)
    inside = int_in if integer else real_in
    d, conf = None, "low"
    first = ctx.choice("prior", ["created-with", "set-later"])
    if first == "created-with":
        d = inside(ctx, "default", lo, hi)
        conf = ctx.choice("confidence", ["low", "high"])
        p = type(p)(lo, hi, log=p.log, default=d, default_confidence=conf)
    for i in range(1 if first == "set-later" else ctx.choice("changes", [0, 1])):
        d = inside(ctx, f"default{i}", lo, hi)
        p.set_default(d)
        if ctx.choice(f"new-confidence{i}", [False, True]):
            conf = "medium"
            p.set_default_confidence_score(conf)
    if ctx.choice("cloned", [False, True]):
        p = p.clone()
    r = rngstub.install(ctx)
    lg = (lambda v: core.sym_log(v + 0.0, "np") if core.is_sym(v) else math.log(v)) if p.log else lambda v: v
    sampled = ctx.choice("asked", ["sample", "density"]) == "sample"
    # integers are drawn from the reals that round to one of them
    pad = 0.499999 if integer and sampled else 0
    low, high, mid = lg(lo - pad), lg(hi + pad), lg(d)
    std = (high - low) * type(p).DEFAULT_CONFIDENCE_SCORES[conf]
    if sampled:
        x = p.sample_value(user_priors=True)
    else:
        v = inside(ctx, "value", lo, hi)
        p.set_value(v)
        x = p.compute_prior()
    ctx.check(len(r.truncated) == 1, "one-truncated-normal", len(r.truncated))
    (a, b, loc, scale), op, y, out = r.truncated[0]
    ctx.check(op == ("rvs" if sampled else "pdf"), "operation", op)
    # from the scale of the distribution to the scale of the parameter
    on = (lambda z: z * std + mid)
    ctx.check(core.sym_and(ctx.near(on(a), low), ctx.near(on(b), high)), "limits", (a, b))
    z = (y - loc) / scale
    if sampled:
        want = on(z)
        if integer:
            ctx.check(isinstance(x, int), "type")
            ctx.check(core.sym_and(ctx.le(lg(x - 0.5000011), want), ctx.le(want, lg(x + 0.5000011))), "around-the-default", x)
        else:
            ctx.check(ctx.near(lg(x), want), "around-the-default", x)
    else:
        ctx.check(ctx.near(on(z), lg(v)), "density-at-the-value", y)
        ctx.check(ctx.eq(x, out), "density", x)
    ctx.cover(("integer-" if integer else "float-") + op)


def log_prob(ctx):
    """the log probability is the sum over the columns, each under its own distribution"""
    import torch
    from neps.sampling.priors import CenteredPrior
    from neps.sampling.distributions import UNIT_UNIFORM_DIST, TorchDistributionWithDomain
    from neps.search_spaces.domain import Domain, UNIT_FLOAT_DOMAIN
    ctx.messages_as_tokens()
    stub(ctx)
    n = 3
    ds, dists, use = [], [], []
    for i in range(n):
        k = ctx.choice(f"k{i}", ["float", "int"]) if i == 0 else "float"
        ds.append(dom(ctx, k, f"d{i}-"))
        u = ctx.choice(f"prior{i}", [True, False])
        use.append(u)
        dists.append(TorchDistributionWithDomain(Recorded(0.5, 0.5, 0.0, 1.0), UNIT_FLOAT_DOMAIN) if u else UNIT_UNIFORM_DIST)
    pr = CenteredPrior(dists)
    us = [[ctx.real(f"u{r}{i}", 0, 1) for i in range(n)] for r in (0, 1)]
    x = T([[ds[i].from_unit(T([us[r][i]]))[0].item() for i in range(n)] for r in (0, 1)])
    lp = pr.log_prob(x, frm=ds)
    ctx.check(tuple(lp.shape) == (2,), "shape")
    for r in (0, 1):
        want = 0.0
        for i in range(n):
            if use[i]:
                want = want + dists[i].distribution.at(ds[i].to_unit(T([x[r, i].item()]))[0].item())
        ctx.check(ctx.eq(lp[r].item(), want), "sum-of-columns", r)
    ctx.cover("".join("p" if u else "-" for u in use))


def initial_design(ctx):
    from neps.search_spaces import SearchSpace, FloatParameter, IntegerParameter, CategoricalParameter, ConstantParameter
    from neps.search_spaces.encoding import ConfigEncoder
    from neps.optimizers.initial_design import make_initial_design
    from neps.sampling.priors import Prior
    ctx.messages_as_tokens()
    stub(ctx)
    lo = ctx.real("lower", -B, B)
    hi = ctx.real("upper", -B, B)
    ctx.assume(lo < hi)
    sampler = ctx.choice("sampler", ["sobol", "uniform", "prior", "given"])
    two = ctx.choice("columns", [2, 1]) == 2 if sampler == "sobol" else True
    size = 1 if two and ctx.tier == "quick" else ctx.choice("size", [1, "ndim"] if two or ctx.tier == "quick" else [2, "ndim"])
    first = ctx.choice("default-first", [False, True])
    if first and sampler == "sobol" and ctx.choice("no-samples", [False, True]):
        size = None
    dflt = ctx.choice("default", [False, True]) if first and sampler == "sobol" else sampler in ("prior", "given")
    d = ctx.real("f-default", -B, B) if dflt else None
    if dflt:
        ctx.assume(core.sym_and(lo <= d, d <= hi))
    fid = ctx.choice("fidelity", [None, "min", "max", True, 2, {"e": 3}]) if sampler == "uniform" and not first or size is None else None
    names = dict(z=FloatParameter(lo, hi, default=d), k=ConstantParameter("k"))
    if two:
        names["c"] = CategoricalParameter(["x", "y", "w"], default="y" if dflt else None)
    if fid is not None:
        names["e"] = IntegerParameter(1, 4, is_fidelity=True)
    sp = SearchSpace(**names)
    enc = ConfigEncoder.default({**sp.numerical, **sp.categoricals}, constants=sp.constants)
    dr = Draws(ctx)
    s = Prior.from_parameters([*sp.categoricals.values(), sp.numerical["z"]]) if sampler == "given" else sampler
    cs = make_initial_design(space=sp, encoder=enc, sampler=s, sample_size=size, sample_default_first=first,
                             sample_fidelity="max" if fid is None else fid)
    want = (0 if size is None else 1 + two if size == "ndim" else size)
    ctx.check(len(cs) <= want + first and len(cs) >= first + (want > 0), "number", len(cs))
    keys = {"z", "k"} | ({"c"} if two else set()) | ({"e"} if fid is not None else set())
    for c in cs:
        ctx.check(set(c) == keys, "parameters", c.keys())
        ctx.check(core.sym_and(ctx.le(lo, c["z"]), ctx.le(c["z"], hi)) if isinstance(c["z"], float) else False, "in-bounds", c["z"])
        ctx.check(c.get("c", "x") in ("x", "y", "w") and c["k"] == "k", "choice")
        if fid is not None:
            e = c["e"]
            if fid is True:
                ctx.check(core.sym_and(isinstance(e, int), core.sym_and(1 <= e, e <= 4)), "fidelity-legal", e)
            else:
                ctx.check(e == {"min": 1, "max": 4, 2: 2}.get(fid if not isinstance(fid, dict) else 0, 3), "fidelity", e)
    if first and dflt:
        ctx.check(core.sym_and(ctx.eq(cs[0]["z"], d), cs[0].get("c", "y") == "y"), "default-first")
    rest = cs[first:]
    for i in range(len(rest)):
        for j in range(i):
            ctx.check(rest[i].get("c") != rest[j].get("c") or core.sym_not(rest[i]["z"] == rest[j]["z"]), "distinct")
    if rest and sampler in ("sobol", "uniform"):
        off = len(dr.us) - 2 * (1 + two) * want
        ctx.check(ctx.eq(rest[0]["z"] - lo, dr.us[off + two] * (hi - lo)), "first-sample-first")
    ctx.cover(f"{sampler}" + ("+" if rest else "-"))


def pibo(ctx):
    """the weight of the prior is its probability to the power of the exponent"""
    import types
    from neps.optimizers.bayesian_optimization.acquisition_functions.pibo import apply_pibo_acquisition_weight
    from neps.optimizers.bayesian_optimization.optimizer import _pibo_exp_term
    lp = [ctx.real(f"log_prob{i}", -20, 5) for i in (0, 1)]
    acq = [ctx.real(f"acq{i}", -20, 20) for i in (0, 1)]
    e = ctx.real("exponent", 0, 1)
    prior = types.SimpleNamespace(log_prob=lambda X, frm: T(lp), prob=lambda X, frm: T([core.ite(l < 0, 0.5, 2.0) if core.is_sym(l) else (0.5 if l < 0 else 2.0) for l in lp]))
    r = apply_pibo_acquisition_weight(T(acq), T([[0.0], [0.0]]), types.SimpleNamespace(_log=True), prior=prior, x_domain=None, prior_exponent=e)
    for i in (0, 1):
        ctx.check(ctx.eq(r[i].item(), acq[i] + e * lp[i]), "log-weight")
    n, nd, init = ctx.int("n", 0, 50), ctx.int("ndims", 1, 9), ctx.int("initial", 0, 50)
    ctx.assume(init <= n)
    t = _pibo_exp_term(n, nd, init)
    t2 = _pibo_exp_term(n + 1, nd, init)
    ctx.check(core.sym_and(t > 0 if ctx.symbolic else t >= 0, ctx.le(t, 1)), "exponent-in-unit")
    ctx.check(ctx.le(t2, t), "exponent-fades")
    ctx.cover("ok")


A = ["floats are exact reals (32-bit dtypes included), exp/log an exact strictly monotone bijection", "random draws are arbitrary values of their documented support (Sobol points: any of the unit cube)",
     "truncated normal and categorical distributions: any value of their support, an arbitrary linear log density"]
BB = "two columns, two samples; float bounds any reals in [-1000, 1000], integer domains of 2 or 4 values (thorough: up to 10)"
HARNESSES = [
    H(samplers, BB, SAM, assumptions=A, sym_alloc=True, covers=[f"{s}/{d}" for s in ("sobol", "uniform", "border", "centered", "weighted") for d in ("int", "float")]),
    H(prior_of_parameters, "two parameters of any kinds, any defaults", SAM, assumptions=A, sym_alloc=True, covers=["uniform", *KINDS]),
    H(parameter_prior, "one numeric parameter, any bounds, default set at construction and maybe changed", ["neps.search_spaces.hyperparameters.*"], assumptions=A,
      covers=["float-rvs", "float-pdf", "integer-rvs", "integer-pdf"]),
    H(log_prob, "three columns, two rows, any subset with a prior, any densities", SAM, assumptions=A, sym_alloc=True, covers=["ppp", "---", "-p-", "--p", "p-p"]),
    H(initial_design, "a float, a categorical, a constant and maybe a fidelity; up to two samples out of four draws", ["neps.optimizers.initial_design.make_initial_design", *SAM],
      assumptions=A, sym_alloc=True, covers=["sobol+", "uniform+", "prior+", "given+", "sobol-"]),
    H(pibo, "any acquisition values, log probabilities and exponents", ["neps.optimizers.bayesian_optimization.acquisition_functions.pibo.apply_pibo_acquisition_weight",
      "neps.optimizers.bayesian_optimization.optimizer._pibo_exp_term"], assumptions=A, covers=["ok"]),
]
