"""C21: PriorBand: what is sampled from the prior, the incumbent and at random."""
from symx.runner import H
from symx import core, rngstub
from checks import mf
from checks.C20 import bracket, follow, ask, _hb_rung, F3, sizes, async_state

PB = ["neps.optimizers.multi_fidelity_prior.priorband.*", "neps.optimizers.multi_fidelity_prior.utils.*", "neps.optimizers.multi_fidelity.hyperband.*",
      "neps.optimizers.multi_fidelity.successive_halving.*", "neps.optimizers.multi_fidelity.sampling_policy.EnsemblePolicy.*"]


def recorder(log):
    from neps.optimizers.multi_fidelity.sampling_policy import SamplingPolicy

    class Rec(SamplingPolicy):
        def __init__(self, pipeline_space, inc_type="mutation"):
            super().__init__(pipeline_space=pipeline_space)

        def sample(self, *a, **kw):
            log.append(kw)
            return self.pipeline_space.sample(ignore_fidelity=True)
    return Rec


def scores(ctx, n):
    """the likelihood of each configuration under the prior and around the incumbent: any positive numbers"""
    import neps.optimizers.multi_fidelity_prior.priorband as pb
    tab = {i: (ctx.real(f"prior-score{i}", 0, 9, lo_open=True), ctx.real(f"inc-score{i}", 0, 9, lo_open=True)) for i in range(n)}
    old = pb.compute_scores
    seen = []

    def stub(config, prior, inc):
        ctx.check(ctx.eq(prior["x"].value, 0.5), "scored-against-the-default")
        i = round(config["x"].value * 64) - 1
        seen.append(inc["x"].value)
        return tab[i]
    pb.compute_scores = stub
    ctx.on_exit(lambda: setattr(pb, "compute_scores", old))
    return tab, seen


def finished(cs):
    return [c for c in cs if not c.pending]


def expected_ratio(ctx, style, cs, R, eta, fids, tab):
    """share of prior and incumbent"""
    if style == "constant":
        return eta / (eta + 1), 1 / (eta + 1)
    if style == "decay":
        used = sum(fids[c.rung] for c in finished(cs))
        w = 1 / 2 ** (used // (eta * fids[R]))
        return w, 1 - w
    for r in range(R, -1, -1):
        done = [(i, c) for i, c in enumerate(cs) if c.base <= r and (c.rung > r or c.rung == r and not c.pending) and c.losses[r] is not None]
        if len(done) < eta:
            continue
        top = max(len(done) // eta, eta)
        ranked = []
        for i, c in done:
            k = 0
            while k < len(ranked) and not (c.losses[r] < ranked[k][1].losses[r]):
                k += 1
            ranked.insert(k, (i, c))
        ranked = ranked[:top]
        ps = qs = 0
        for w, (i, c) in zip(range(len(ranked), 0, -1), ranked):
            ps = ps + w * tab[i][0]
            qs = qs + w * tab[i][1]
        return ps / (ps + qs), qs / (ps + qs)
    return eta / (eta + 1), 1 / (eta + 1)


def check_weights(ctx, log, cs, R, eta, fids, style, wt, rung, tab, seen, first_size):
    ctx.check(len(log) == 1, "one-sample")
    kw = log[0]
    w, inc = kw["weights"], kw["inc"]
    ctx.check(set(w) == {"prior", "inc", "random"}, "keys")
    ctx.check(core.sym_and(*[ctx.le(0, v) for v in w.values()]), "not-negative")
    ctx.check(ctx.near(w["prior"] + w["inc"] + w["random"], 1), "sum-to-one", w)
    wp = eta ** rung if wt == "geometric" else 1 if wt == "50-50" else 1 + (eta - 1) * rung / R
    rnd = 1 / (1 + wp)
    ctx.check(ctx.near(w["random"], rnd), "random-share", (rung, w))
    # resources of one bracket, continuing evaluations
    need = first_size[0] * fids[0] + sum(first_size[r] * (fids[r] - fids[r - 1]) for r in range(1, R + 1))
    used = sum(fids[c.rung] for c in finished(cs))
    top = [c for c in cs if c.rung == R and not c.pending and c.losses[R] is not None]
    p, q = expected_ratio(ctx, style, cs, R, eta, fids, tab)
    if used >= need and top:
        ctx.check(inc is not None, "incumbent-used-after-one-bracket")
        ctx.check(ctx.near(w["prior"], p * (1 - rnd)), "prior-share", (w, style))
        ctx.check(ctx.near(w["inc"], q * (1 - rnd)), "incumbent-share", (w, style))
        i = next((c for c in cs if c.x == inc["x"].value), None)
        ctx.check(i is not None and not i.pending, "incumbent-was-evaluated")
        ctx.check(core.sym_and(*[mf.better(ctx, i.losses[i.rung], c.losses[c.rung]) for c in finished(cs)]), "incumbent-is-the-best")
        ctx.cover("incumbent")
    else:
        ctx.check(inc is None and w["inc"] == 0, "no-incumbent-before-one-bracket")
        ctx.check(ctx.near(w["prior"], 1 - rnd), "prior-takes-the-share-of-the-incumbent", w)
        ctx.cover("no-incumbent")


def first(ctx):
    from neps.optimizers.multi_fidelity_prior.priorband import PriorBand
    from neps.optimizers.multi_fidelity_prior.async_priorband import PriorBandAsha, PriorBandAshaHB
    cls = ctx.choice("class", [PriorBand, PriorBandAsha, PriorBandAshaHB])
    target = ctx.choice("at-target", [True, False])
    opt = cls(pipeline_space=mf.space(1, 4, prior=True), budget=10, eta=2, sample_default_at_target=target)
    s = ask(ctx, opt, {})
    ctx.check(ctx.eq(s.config["x"], 0.5), "the-default-first", s.config)
    r = int(s.id.split("_")[1])
    ctx.check(r == 2 if target else r == 0 if cls is not PriorBandAshaHB else True, "rung-of-the-default", s.id)
    mf.check_new(ctx, s, [], r, F3, {})
    ctx.cover(cls.__name__)


def priorband(ctx, styles=("constant", "decay")):
    """two rungs: the default at the top, then brackets; the schedule is that of Hyperband"""
    from neps.optimizers.multi_fidelity_prior.priorband import PriorBand
    R, eta = 1, 2
    style = ctx.choice("inc_style", ["constant", "decay", "dynamic"] if styles is None else styles)
    wt = ctx.choice("prior_weight_type", ["geometric", "linear", "50-50"] if style == "constant" else ["geometric"])
    log = []
    opt = PriorBand(pipeline_space=mf.space(1, 2, prior=True), budget=10, eta=eta, ignore_errors=True, inc_style=style, prior_weight_type=wt, sampling_policy=recorder(log))
    n = ctx.choice("blocks", [1, 2] if ctx.tier == "quick" else [1, 2, 3])
    dst = ctx.choice("default", ["ok", "pending", "error"] if n == 1 else ["ok"])
    d = mf.Cfg(1, 1, dst == "pending", {1: None if dst == "error" else mf.loss(ctx, "default-loss")}, 1 / 64)
    blocks, start = [], 1
    for j in range(n):
        k = j % 2
        last = j == n - 1
        cs = bracket(ctx, f"b{j}-", k, R, eta, start, partial=last, statuses=("ok", "pending") if last or ctx.tier == "thorough" else ("ok",),
                     concrete=not last and ctx.tier == "quick")
        start += len(cs)
        blocks.append((k, cs))
    cfgs = [d, *(c for _, b in blocks for c in b)]
    tab, seen = scores(ctx, len(cfgs))
    ts = mf.trials(ctx, cfgs, F3)
    s = ask(ctx, opt, ts)
    if follow(ctx, s, blocks, cfgs, F3, ts, R, eta):
        ctx.check(not log, "no-sample-for-a-promotion")
        return
    rung = _hb_rung(R, eta, len(cfgs) - 1)
    mf.check_new(ctx, s, cfgs, rung, F3, ts)
    check_weights(ctx, log, cfgs, R, eta, F3, style, wt, rung, tab, seen, sizes(R, 0, eta))


def priorband_dynamic(ctx):
    priorband(ctx, ("dynamic",))


def priorband_asha_hb(ctx):
    priorband_asha(ctx, "asha-hb")


def priorband_asha(ctx, hb="asha"):
    from neps.optimizers.multi_fidelity_prior.async_priorband import PriorBandAsha, PriorBandAshaHB
    R, eta = 1, 2
    style = ctx.choice("inc_style", ["dynamic", "constant"])
    log = []
    cls = PriorBandAsha if hb == "asha" else PriorBandAshaHB
    opt = cls(pipeline_space=mf.space(1, 2, prior=True), budget=10, eta=eta, ignore_errors=True, inc_style=style, sampling_policy=recorder(log))
    d = mf.Cfg(1, 1, ctx.choice("default-pending", [False, True]), {1: mf.loss(ctx, "default-loss")}, 1 / 64)
    n = ctx.choice("n", [0, 1, 2] if ctx.tier == "quick" else [0, 1, 2, 3])
    cs = async_state(ctx, n, R, bases=(0,) if hb == "asha" else (0, 1), statuses=("ok", "pending") if n < 2 else ("ok",))
    for i, c in enumerate(cs):
        c.x = (i + 2) / 64
    cfgs = [d, *cs]
    tab, seen = scores(ctx, len(cfgs))
    ts = mf.trials(ctx, cfgs, F3)
    s = ask(ctx, opt, ts)
    at = [c for c in cs if c.rung == 0 and not c.pending]
    if s.previous_config_id is not None:
        i = int(s.id.split("_")[0])
        ctx.check(len(at) >= eta and cfgs[i] in at, "promotes-a-finished-member", s.id)
        mf.check_promotion(ctx, s, cfgs[i], i, 0, F3, ts)
        ctx.check(mf.best_of(ctx, cfgs[i], 0, at), "promotes-the-best", s.id)
        ctx.cover("promotion")
        return
    rung = int(s.id.split("_")[1])
    ctx.check(rung == 0 or hb == "asha-hb", "new-at-the-lowest-rung")
    ctx.check(len(at) < eta or rung > 0, "promotes-when-it-can")
    mf.check_new(ctx, s, cfgs, rung, F3, ts)
    check_weights(ctx, log, cfgs, R, eta, F3, style, "geometric", rung, tab, seen, sizes(R, 0, eta))


def nonzero(ctx, gauss, mu, sd):
    """a normal draw that is not exactly its mean (an event of probability zero)"""
    z = gauss(0.0, 1.0)
    ctx.assume(z != 0)
    return mu + sd * z


def ensemble(ctx):
    """whatever is sampled is a legal configuration, derived from the incumbent when that is asked for, and changes nothing else"""
    import functools
    import neps.optimizers.multi_fidelity_prior.utils as u
    from neps.search_spaces import SearchSpace, FloatParameter, IntegerParameter, CategoricalParameter, ConstantParameter
    from neps.optimizers.multi_fidelity.sampling_policy import EnsemblePolicy, FixedPriorPolicy, RandomUniformPolicy
    ctx.messages_as_tokens()
    for n in ("local_mutation", "custom_crossover"):
        old = getattr(u, n)
        setattr(u, n, functools.partial(old, patience=2))
        ctx.on_exit(lambda n=n, old=old: setattr(u, n, old))
    sp = SearchSpace(x=FloatParameter(0.0, 1.0, default=0.5), c=CategoricalParameter(["a", "b"], default="a"), k=ConstantParameter("k"),
                     e=IntegerParameter(1, 4, is_fidelity=True))
    xi = ctx.real("incumbent-x", 0, 1)
    ci = ctx.choice("incumbent-c", ["a", "b"])
    inc = sp.from_dict({"x": xi, "c": ci, "k": "k", "e": 3})
    kind = ctx.choice("policy", ["uniform", "fixed-prior", "random", "prior", "mutation", "crossover", "gaussian"])
    d = rngstub.install(ctx)
    d.max_gauss = 2 if ctx.tier == "quick" else 4
    old_gauss = d.gauss
    d.gauss = lambda mu=0.0, sd=1.0: nonzero(ctx, old_gauss, mu, sd)
    if kind == "uniform":
        new = RandomUniformPolicy(sp).sample()
    elif kind == "fixed-prior":
        new = FixedPriorPolicy(sp, fraction_from_prior=0.5).sample()
    else:
        pol = EnsemblePolicy(sp, inc_type=kind if kind in ("mutation", "crossover", "gaussian") else "mutation")
        w = {"prior": 0.0, "inc": 0.0, "random": 0.0}
        w["inc" if kind in ("mutation", "crossover", "gaussian") else kind] = 1.0
        new = pol.sample(inc=inc, weights=w, **({"inc_mutation_rate": 0.5, "inc_mutation_std": 0.25} if kind == "mutation" else {}))
    v = new.hp_values()
    ctx.check(set(v) == {"x", "c", "k", "e"}, "parameters")
    ctx.check(core.sym_and(ctx.le(0.0, v["x"]), ctx.le(v["x"], 1.0)), "legal", v["x"])
    ctx.check(v["c"] in ("a", "b") and v["k"] == "k", "legal-choice")
    ctx.check(new.fidelity is not None and new.fidelity.lower == 1 and new.fidelity.upper == 4, "fidelity-kept")
    ctx.check(new["x"].lower == 0.0 and new["x"].upper == 1.0 and list(new["c"].choices) == ["a", "b"], "space-kept")
    if kind in ("mutation",):
        ctx.check(v["e"] == 3, "fidelity-of-the-incumbent")
    o = inc.hp_values()
    ctx.check(core.sym_and(ctx.eq(o["x"], xi), o["c"] == ci, o["e"] == 3), "incumbent-untouched")
    ctx.check(sp["x"].value is None and sp["x"].default == 0.5 and sp["c"].default == "a", "space-untouched")
    # the result is not the incumbent itself
    new["c"].set_value("b" if ci == "a" else "a")
    ctx.check(inc["c"].value == ci, "independent-of-the-incumbent")
    ctx.cover(kind)


A = ["losses are exact reals without NaN; pandas and numpy execute natively on symbolic entries"]
HARNESSES = [
    H(first, "eta 2, three rungs", PB, assumptions=A, covers=["PriorBand", "PriorBandAsha", "PriorBandAshaHB"]),
    H(priorband, "eta 2, two rungs, the default and any state of up to two (thorough: three) brackets, any losses", PB,
      assumptions=[*A, "the likelihoods of configurations under prior and incumbent are any positive numbers"], covers=["promotion", "incumbent", "no-incumbent"]),
    H(priorband_dynamic, "eta 2, two rungs, the default and any state of up to two (thorough: three) brackets, any losses and scores", PB,
      assumptions=[*A, "the likelihoods of configurations under prior and incumbent are any positive numbers"], covers=["promotion", "incumbent", "no-incumbent"]),
    H(priorband_asha_hb, "eta 2, two rungs, the default and up to two (thorough: three) configurations in any state", PB,
      assumptions=[*A, "the likelihoods of configurations under prior and incumbent are any positive numbers"], covers=["promotion", "incumbent", "no-incumbent"]),
    H(priorband_asha, "eta 2, two rungs, the default and up to two (thorough: three) configurations in any state", PB,
      assumptions=[*A, "the likelihoods of configurations under prior and incumbent are any positive numbers"], covers=["promotion", "incumbent", "no-incumbent"]),
    H(ensemble, "any incumbent, any draws, one float, one categorical, one constant and a fidelity; two attempts instead of fifty", [*PB, "neps.search_spaces.*"], assumptions=A,
      covers=["uniform", "fixed-prior", "random", "prior", "mutation", "crossover", "gaussian"]),
]
