"""C14: configurations of a search space."""
from symx.runner import H
from symx import rngstub, core

HP = "neps.search_spaces.hyperparameters"
SP = ["neps.search_spaces.search_space.SearchSpace.*", f"{HP}.*", "neps.search_spaces.parameter.*"]
B = 1000
CH = ["a", "b", "c"]


def space(ctx, small=False, prior=False, fid=True, log=None):
    """a space with one parameter of every kind and symbolic bounds: (space, bounds)"""
    from neps.search_spaces import SearchSpace, FloatParameter, IntegerParameter, CategoricalParameter, ConstantParameter
    ctx.messages_as_tokens()
    log = False if log is None else log
    lo = ctx.real("lower", 0, B, lo_open=True) if log else ctx.real("lower", -B, B)
    hi = ctx.real("upper", -B, B)
    ctx.assume(lo < hi)
    il = ctx.int("int-lower", -5, 5) if not small or ctx.tier != "quick" else -1
    kw = {}
    if prior:
        d = ctx.real("default", -B, B)
        ctx.assume(core.sym_and(lo <= d, d <= hi))
        kw = dict(default=d, default_confidence="medium")
    ps = dict(n=IntegerParameter(il, il + 2, **({"default": il + 1} if prior else {})), k=ConstantParameter(7), c=CategoricalParameter(list(CH), **({"default": "b"} if prior else {})),
              x=FloatParameter(lo, hi, log=log, **kw))
    if fid:
        ps["e"] = IntegerParameter(1, 9, is_fidelity=True)
    b = {"x": (lo, hi), "n": (il, il + 2), "c": CH, "k": [7], "e": (1, 9)}
    return SearchSpace(**ps), {k: v for k, v in b.items() if k in ps}


def config(ctx, b, tag="", light=None):
    """any configuration of the space (quick, when light: of those with these n, c and e)"""
    v = ctx.real(tag + "x", -B, B)
    ctx.assume(core.sym_and(b["x"][0] <= v, v <= b["x"][1]))
    ns, cs, es = ([0, 1, 2], CH[:2], [1, 4]) if light is None or ctx.tier != "quick" else light
    n = b["n"][0] + ctx.choice(tag + "n", ns)
    c = {"x": v, "n": n, "c": ctx.choice(tag + "c", cs), "k": 7}
    if "e" in b:
        c["e"] = ctx.choice(tag + "e", es)
    return c


def same(ctx, got, want, what):
    ctx.check(set(got) == set(want), what + "-names", sorted(got))
    ctx.check(core.sym_and(*[isinstance(got[k], float) == isinstance(w, float) and ctx.eq(got[k], w) if isinstance(w, (int, float)) or core.is_sym(w) else got[k] == w for k, w in want.items()]), what, got)


def legal(ctx, cfg, b, what, skip=()):
    ctx.check(set(cfg) == set(b), what + "-names", sorted(cfg))
    for k, r in b.items():
        if k in skip:
            continue
        v = cfg[k]
        if isinstance(r, list):
            ctx.check(v in r, what + "-legal", (k, v))
        else:
            ctx.check(v is not None, what + "-set", k)
            ctx.check(isinstance(v, float if k == "x" else int) and core.sym_and(ctx.le(r[0], v), ctx.le(v, r[1])), what + "-legal", (k, v))


def no_values(ctx, sp, what):
    ctx.check(all(hp.value is None for n, hp in sp.hyperparameters.items() if n != "k") and sp["k"].value == 7, what)


def loading(ctx):
    """a configuration loaded into a space is that configuration, and nothing else changes"""
    sp, b = space(ctx)
    c = config(ctx, b)
    order = ctx.choice("order", [False, True])
    cfg = sp.from_dict(dict(reversed(list(c.items()))) if order else c)
    same(ctx, cfg.hp_values(), c, "loaded")
    same(ctx, cfg.serialize(), c, "serialized")
    same(ctx, sp.from_dict(cfg.serialize()).hp_values(), c, "reloaded")
    no_values(ctx, sp, "space-untouched")
    ctx.check(list(cfg) == sorted(c) and len(cfg) == len(c), "order-by-name", list(cfg))
    cl = cfg.clone()
    same(ctx, cl.hp_values(), c, "clone")
    ctx.check(cl.is_equal_value(cfg), "clone-equal")
    cl["c"].set_value("c")
    cl["n"].set_value(b["n"][0])
    cl["e"].set_value(9)
    same(ctx, cfg.hp_values(), c, "independent-of-its-clone")
    ctx.check(cfg.fidelity is cfg.hyperparameters["e"] and cl.fidelity is cl.hyperparameters["e"] and cl.fidelity_name == "e", "fidelity-of-the-clone")
    cfg.set_to_max_fidelity()
    same(ctx, cfg.hp_values(), {**c, "e": 9}, "max-fidelity")
    # an illegal value is refused
    bad = ctx.choice("bad", ["x", "n", "c", "name"])
    w = dict(c)
    if bad == "x":
        w["x"] = ctx.real("bad-x", -2 * B, 2 * B)
        ctx.assume(core.sym_or(w["x"] < b["x"][0], w["x"] > b["x"][1]))
    elif bad == "n":
        w["n"] = b["n"][1] + 1
    elif bad == "c":
        w["c"] = "z"
    else:
        w["unknown"] = 1
    try:
        sp.from_dict(w)
        ctx.fail("illegal-configuration-accepted", bad)
    except (ValueError, KeyError):
        pass
    no_values(ctx, sp, "space-untouched-by-refusal")
    # without a value there is nothing to store
    try:
        sp.serialize()
        ctx.fail("serialized-without-values")
    except ValueError:
        pass
    ctx.cover(bad)


def sampling(ctx):
    prior = ctx.choice("prior", [False, True])
    sp, b = space(ctx, prior=prior)
    ctx.check(sp.has_prior is prior and sp.has_fidelity, "flags")
    d = rngstub.install(ctx)
    d.max_gauss = 2
    how = ctx.choice("how", ["plain", "with-fidelity", "priors", "default"])
    if how == "default":
        try:
            cfg = sp.sample_default_configuration(patience=1, ignore_fidelity=True, ignore_missing_defaults=ctx.choice("missing", [False, True]))
        except ValueError:
            ctx.check(not prior, "default-refused")
            ctx.cover("no-default")
            return
        legal(ctx, cfg.hp_values(), b, "default", skip=("e",))
        if prior:
            v = cfg.hp_values()
            ctx.check(core.sym_and(ctx.eq(v["x"], sp["x"].default), v["n"] == sp["n"].default, v["c"] == "b"), "at-the-default", v)
    else:
        cfg = sp.sample(user_priors=how == "priors", ignore_fidelity=how != "with-fidelity", patience=ctx.choice("patience", [1, 2]))
        legal(ctx, cfg.hp_values(), b, "sample", skip=() if how == "with-fidelity" else ("e",))
    if how != "with-fidelity":
        ctx.check(cfg.hp_values()["e"] is None, "fidelity-left-alone")
    ctx.check(cfg.fidelity_name == "e" and cfg.has_prior is prior, "kept")
    no_values(ctx, sp, "space-untouched")
    if prior:
        ctx.check(sp["c"].default == "b" and cfg["c"].default == "b" and ctx.eq(cfg["x"].default, sp["x"].default), "defaults-kept")
    ctx.cover(how)


def mutation(ctx):
    sp, b = space(ctx, small=True)
    c = config(ctx, b, light=([0, 1], ["b"], [4]))
    cfg = sp.from_dict(c)
    target = cfg
    kw = {}
    if ctx.choice("parent", [False, True]):
        # mutate another configuration of the same space
        target, kw = cfg, {"parent": cfg}
        cfg = sp.from_dict({**c, "c": "c" if c["c"] != "c" else "a"})
    d = rngstub.install(ctx)
    d.max_gauss = 2
    try:
        m = cfg.mutate(patience=2, **kw)
    except ValueError as e:
        # every attempt drew the same value, or a constant
        ctx.check("Could not mutate" in str(e), "mutation-failed", str(e))
        ctx.cover("gave-up")
        return
    v = m.hp_values()
    legal(ctx, v, b, "mutant")
    changed = [k for k in c if k != "x" and not bool(ctx.eq(v[k], c[k]) if k != "c" else v[k] == c[k])]
    ctx.check(not {"k", "e"} & set(changed), "constants-and-fidelity-kept", changed)
    ctx.check(len(changed) <= 1, "one-change", changed)
    if changed:
        ctx.check(ctx.eq(v["x"], c["x"]), "one-change", v["x"])
        ctx.cover(changed[0])
    else:
        ctx.check(v["x"] != c["x"], "mutant-differs", v["x"])
        ctx.cover("x")
    ctx.cover("parent" if kw else "self")
    same(ctx, target.hp_values(), c, "mutated-untouched")
    no_values(ctx, sp, "space-untouched")


def crossing(ctx):
    sp, b = space(ctx, small=True)
    c1, c2 = config(ctx, b, "one-", light=([0], ["a"], [4])), config(ctx, b, "two-", light=([2], ["a", "b"], [1]))
    a1, a2 = sp.from_dict(c1), sp.from_dict(c2)
    p = ctx.choice("probability", [0.0, 1.0])
    d = rngstub.install(ctx)
    d.max_gauss = 4
    if p == 0.0:
        k1, k2 = a1.crossover(a2, crossover_probability_per_hyperparameter=0.0)
        same(ctx, k1.hp_values(), c1, "no-crossover-1")
        same(ctx, k2.hp_values(), c2, "no-crossover-2")
        ctx.cover("none")
    else:
        k1, k2 = a1.crossover(a2)
        v1, v2 = k1.hp_values(), k2.hp_values()
        legal(ctx, v1, b, "child-1")
        legal(ctx, v2, b, "child-2")
        ctx.check((v1["c"], v2["c"]) == (c2["c"], c1["c"]), "choices-exchanged", (v1["c"], v2["c"]))
        ctx.check((v1["e"], v2["e"]) == (c1["e"], c2["e"]), "fidelity-kept")
        ctx.cover("all")
    k1["c"].set_value("c")
    same(ctx, a1.hp_values(), c1, "parent-1-untouched")
    same(ctx, a2.hp_values(), c2, "parent-2-untouched")


def setting(ctx):
    """set_hyperparameters_from_dict touches what it is told to"""
    sp, b = space(ctx, prior=True)
    c = config(ctx, b, light=([0], ["a"], [4]))
    old = config(ctx, b, "old-", light=([1], ["c"], [1])) if ctx.choice("had-values", [False, True]) else None
    if old is not None:
        sp = sp.from_dict(old)
    values, defaults = ctx.choice("what", [(True, True), (True, False), (False, True), (False, False)])
    over = ctx.choice("overwrite-constants", [False, True])
    dd, dv = ctx.choice("delete", [(False, False), (True, False), (False, True)]) if not over or ctx.tier != "quick" else (False, False)
    some = ctx.choice("given", ["xncek", "xc", "nk"] if ctx.tier != "quick" else ["xncek"] if over else ["xc", "nke"])
    some = {k: v for k, v in c.items() if k in some}
    if "k" in some:
        some["k"] = 8
    d0 = {k: sp[k].default for k in b}
    v0 = sp.hp_values()
    try:
        sp.set_hyperparameters_from_dict(some, values=values, defaults=defaults, confidence="high", overwrite_constants=over, delete_previous_defaults=dd, delete_previous_values=dv)
    except ValueError:
        ctx.check(not (values or defaults) or over and "k" in some and not (values and defaults), "refused", (values, defaults))
        ctx.cover("refused")
        return
    ctx.check(values or defaults, "accepted-nothing-to-do")
    for k in b:
        g = k in some
        if k == "k":
            w = 8 if g and over else 7
            ctx.check(sp["k"].value == w and sp["k"].default == w, "constant", sp["k"].value)
            continue
        wv = some[k] if g and values else None if g and dv else v0[k]
        wd = some[k] if g and defaults else None if g and dd else d0[k]
        for w, got, what in ((wv, sp[k].value, "value"), (wd, sp[k].default, "default")):
            ctx.check((got is None) == (w is None), what + "-set", (k, got))
            if w is not None:
                ctx.check(ctx.eq(got, w) if k != "c" else got == w, what, (k, got))
        if k != "e":
            ctx.check(sp[k].default_confidence_choice == ("high" if g and defaults else {"x": "medium"}.get(k, "low")), "confidence", (k, sp[k].default_confidence_choice))
    ctx.cover(f"{values}-{defaults}")


def equality(ctx):
    """equal exactly when no value differs"""
    log = ctx.choice("log", [False, True])
    sp, b = space(ctx, log=log)
    c1, c2 = config(ctx, b, "one-"), config(ctx, b, "two-")
    a1, a2 = sp.from_dict(c1), sp.from_dict(c2)
    fid = ctx.choice("include-fidelity", [True, False])
    r = bool(a1.is_equal_value(a2, include_fidelity=fid))
    ctx.check(bool(a2.is_equal_value(a1, include_fidelity=fid)) == r, "symmetric")
    rest = bool(ctx.eq(c1["n"], c2["n"])) and c1["c"] == c2["c"] and (not fid or c1["e"] == c2["e"])
    n1, n2 = sp["x"].value_to_normalized(c1["x"]), sp["x"].value_to_normalized(c2["x"])
    if r:
        ctx.check(rest, "equal-but-different", (c1, c2))
        ctx.check(core.sym_and(n1 - n2 < 1e-7, n2 - n1 < 1e-7), "equal-but-far", (n1, n2))
        ctx.cover("equal")
    elif rest:
        ctx.check(core.sym_or(n1 - n2 > 1e-9, n2 - n1 > 1e-9), "different-but-equal", (n1, n2))
        ctx.cover("x-differs")
    else:
        ctx.cover("rest-differs")
    sub = sp.__class__(**{k: v.clone() for k, v in a1.hyperparameters.items() if k != "k"})
    ctx.check(not sub.is_equal_value(a1) and not a1.is_equal_value(sub), "other-names-differ")


def groups(ctx):
    """every parameter is filed under its kind; only one numerical fidelity is accepted"""
    from neps.search_spaces import SearchSpace, FloatParameter, IntegerParameter, CategoricalParameter, ConstantParameter
    ctx.messages_as_tokens()
    names = ["b", "a", "d", "c"]
    kinds = {n: ctx.choice("kind-" + n, ["float", "float-fid", "int", "int-fid", "cat", "const"]) for n in names[:3]}
    kinds["c"] = "const"
    lo = ctx.real("lower", 0, 10, lo_open=True)
    prior = ctx.choice("default", [False, True])

    def mk(k):
        if k.startswith("float"):
            return FloatParameter(lo, 20.0, is_fidelity=k.endswith("fid"), default=15.0 if prior else None)
        if k.startswith("int"):
            return IntegerParameter(1, 3, is_fidelity=k.endswith("fid"), default=2 if prior else None)
        return CategoricalParameter(["u", "v"], default="u" if prior else None) if k == "cat" else ConstantParameter("w")
    ps = {n: mk(k) for n, k in kinds.items()}
    fids = [n for n, k in kinds.items() if k.endswith("fid")]
    try:
        s = SearchSpace(**ps)
    except ValueError:
        ctx.check(len(fids) > 1, "refused", fids)
        ctx.cover("two-fidelities")
        return
    ctx.check(len(fids) < 2, "two-fidelities-accepted")
    ctx.check(list(s) == sorted(names) and all(s[n] is ps[n] for n in names), "parameters")
    ctx.check(s.fidelity_name == (fids[0] if fids else None) and s.fidelity is (ps[fids[0]] if fids else None) and s.has_fidelity == bool(fids), "fidelity")
    ctx.check(dict(s.fidelities) == {n: ps[n] for n in fids} or list(s.fidelities) == fids, "fidelities")
    ctx.check(list(s.numerical) == sorted(n for n, k in kinds.items() if k in ("int", "float")), "numerical", list(s.numerical))
    ctx.check(list(s.categoricals) == sorted(n for n, k in kinds.items() if k == "cat"), "categorical")
    ctx.check(dict(s.constants) == {n: "w" for n, k in kinds.items() if k == "const"}, "constants", dict(s.constants))
    ctx.check(s.has_prior == (prior and any(k != "const" and not k.endswith("fid") for k in kinds.values())), "has-prior")
    ctx.cover("fidelity" if fids else "no-fidelity")


def prior_density(ctx):
    """the density of a configuration is the product over the parameters with a default"""
    sp, b = space(ctx, prior=True)
    c = config(ctx, b)
    cfg = sp.from_dict(c)
    log = ctx.choice("log", [False, True])
    pdf = {}
    for k, hp in cfg.hyperparameters.items():
        if k == "k":
            continue
        v = ctx.real("density-" + k, 0, 5, lo_open=True)
        pdf[k] = v
        hp.compute_prior = lambda *, log=False, v=v: -v if log else v
    got = cfg.compute_prior(log=log, ignore_fidelity=ctx.choice("ignore-fidelity", [False, True]))
    w = -(pdf["x"] + pdf["n"] + pdf["c"]) if log else pdf["x"] * pdf["n"] * pdf["c"]
    ctx.check(ctx.eq(got, w), "density", got)
    n = cfg.get_normalized_hp_categories(ignore_fidelity=ctx.choice("without-fidelity", [False, True]))
    ctx.check(len(n["categorical"]) == 1 and n["categorical"][0] == CH.index(c["c"]), "category-index", n["categorical"])
    cont = [cfg[k].value_to_normalized(c[k]) for k in sorted(c) if k in ("e", "n", "x")]
    if len(n["continuous"]) == 2:
        cont = cont[1:]
    ctx.check(len(n["continuous"]) == len(cont) and core.sym_and(*[ctx.eq(u, w2) for u, w2 in zip(n["continuous"], cont)]), "normalized-values")
    ctx.cover("log" if log else "plain")


A = ["floats are exact reals"]
HARNESSES = [
    H(loading, "any bounds and values of a float, an integer and a categorical, a constant and a fidelity", SP, assumptions=A, covers=["x", "n", "c", "name"]),
    H(sampling, "any bounds, defaults and draws", SP, assumptions=A, covers=["plain", "with-fidelity", "priors", "default", "no-default"]),
    H(mutation, "any bounds, values and draws; two attempts", SP, assumptions=A, covers=["x", "n", "c", "parent", "self"]),
    H(crossing, "any bounds, values and draws", SP, assumptions=A, covers=["none", "all"]),
    H(setting, "any bounds, values and defaults; every combination of the options", SP, assumptions=A, covers=["refused", "True-True", "True-False", "False-True"]),
    H(equality, "any bounds and two configurations", SP, assumptions=A, covers=["equal", "x-differs", "rest-differs"]),
    H(groups, "three parameters of any kind and a constant", SP, assumptions=A, covers=["two-fidelities", "fidelity", "no-fidelity"]),
    H(prior_density, "any densities of the parameters", SP, assumptions=A, covers=["log", "plain"]),
]
