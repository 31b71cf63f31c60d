"""C24: the run that is started is the one described by arguments, run_args file and defaults."""
from symx.runner import H
from symx import core
from .bo import everywhere

RUN = ["neps.api.*", "neps.utils.run_args.Settings.*", "neps.utils.run_args.*", "neps.utils.common.get_searcher_data", "neps.utils.common.get_value", "neps.utils.common.instance_from_map"]

DEFAULTS = dict(overwrite_working_directory=False, post_run_summary=True, development_stage_id=None, task_id=None, max_evaluations_total=None, max_evaluations_per_run=None,
                continue_until_max_evaluation_completed=False, max_cost_total=None, ignore_errors=False, loss_value_on_error=None, cost_value_on_error=None)
# the name of each at the runtime
AT = dict(overwrite_working_directory="overwrite_optimization_dir", max_evaluations_total="max_evaluations_total", max_evaluations_per_run="max_evaluations_for_worker",
          continue_until_max_evaluation_completed="continue_until_max_evaluation_completed", max_cost_total="max_cost_total", ignore_errors="ignore_errors",
          loss_value_on_error="loss_value_on_error", cost_value_on_error="cost_value_on_error")


def value(ctx, k, tag):
    n = f"{k}-{tag}"
    if k in ("overwrite_working_directory", "post_run_summary", "continue_until_max_evaluation_completed", "ignore_errors"):
        return ctx.bool(n)
    if k in ("max_evaluations_total", "max_evaluations_per_run"):
        return ctx.int(n, 1, 1000)
    if k == "max_cost_total":
        return ctx.real(n, 0.001, 1000) if tag == "yaml" else ctx.int(n, 1, 1000)
    if k in ("task_id", "development_stage_id"):
        return ctx.choice(n, [f"{tag}-a", 3 if tag == "yaml" else 7])
    return ctx.real(n, -1000, 1000)


class Runtime:
    def __init__(self, ctx):
        import neps.api
        import neps.runtime
        import importlib
        st = importlib.import_module("neps.status.status")
        self.calls, self.csv = [], []

        def launch(**kw):
            self.calls.append(kw)

        def csv(root):
            self.csv.append(root)
            return "a", "b"
        everywhere(ctx, neps.runtime._launch_runtime, launch)
        everywhere(ctx, st.post_run_csv, csv)


def yaml_file(ctx, content):
    """content is what the YAML file says"""
    import neps.utils.run_args as ra
    old = ra.config_loader
    ctx.on_exit(lambda: setattr(ra, "config_loader", old))
    ra.config_loader = lambda path: content


def searchers(ctx):
    """every searcher is a recorder of what it was made with"""
    import neps.optimizers as no
    old = no.SearcherMapping
    log = []

    def mk(name, base):
        class Recorder:
            def __new__(cls, **kw):
                log.append((name, {**base, **kw}))
                return ("searcher", name)
        return Recorder
    everywhere(ctx, old, {k: mk(k, dict(getattr(v, "keywords", {}))) for k, v in old.items()})
    return log


def equal(ctx, a, b):
    if core.is_sym(a) or core.is_sym(b):
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, core.SymBool) or isinstance(b, core.SymBool):
            return core.sym_not(core.sym_or(core.sym_and(a, core.sym_not(b)), core.sym_and(b, core.sym_not(a))))
        if a is None or b is None:
            return False
        return a == b
    return type(a) is type(b) and a == b


def f(x):
    return x


def settings(ctx):
    """argument before run_args file before default, for every setting, and it is what the runtime gets"""
    import neps
    import os
    ctx.messages_as_tokens()
    rt = Runtime(ctx)
    log = searchers(ctx)
    two = ctx.choice("settings", [("max_evaluations_total", "ignore_errors", "task_id"), ("max_cost_total", "loss_value_on_error", "cost_value_on_error"),
                                  ("max_evaluations_per_run", "overwrite_working_directory", "continue_until_max_evaluation_completed"),
                                  ("post_run_summary", "development_stage_id", "task_id")])
    given, expected, content = {}, dict(DEFAULTS), {}
    any_yaml = ctx.choice("run-args-file", [False, True])
    for k in two:
        nullable = DEFAULTS[k] is None
        src = ctx.choice(f"{k}-from", ["default", "argument"] + (["yaml", "both", "yaml-None"] + (["both-None"] if nullable else []) if any_yaml else []))
        if src in ("yaml", "both"):
            content[k] = expected[k] = value(ctx, k, "yaml")
        if src == "yaml-None":
            content[k] = ctx.choice(f"{k}-none", [None, "None"])
        if src in ("argument", "both"):
            given[k] = expected[k] = value(ctx, k, "argument")
        if src == "both-None":
            # an argument lifts what the file says
            content[k] = value(ctx, k, "yaml")
            given[k] = expected[k] = None
            ctx.cover("lifted")
    from neps.search_spaces import FloatParameter
    sp = {"x": FloatParameter(0.0, 1.0)}
    kw = dict(run_pipeline=f, root_directory="/nowhere/root", pipeline_space=sp, searcher="random_search")
    enough = any(expected[k] is not None for k in ("max_evaluations_total", "max_cost_total"))
    if not enough and ctx.choice("no-budget", [False, True]):
        try:
            neps.run(**kw, **given, **(dict(run_args="args.yaml") if any_yaml and not yaml_file(ctx, content) else {}))
        except ValueError:
            ctx.check(not rt.calls, "nothing-started")
            ctx.cover("no-budget-refused")
            return
        ctx.fail("run-without-a-budget")
    if not enough:
        given["max_evaluations_total"] = expected["max_evaluations_total"] = 11
    if any_yaml:
        yaml_file(ctx, nest(ctx, content))
        kw["run_args"] = "args.yaml"
    neps.run(**kw, **given)
    ctx.check(len(rt.calls) == 1, "run-once", len(rt.calls))
    c = rt.calls[0]
    for k, at in AT.items():
        ctx.check(equal(ctx, c[at], expected[k]), f"setting-{k}", (c[at], expected[k]))
    ctx.check(c["evaluation_fn"] is f, "evaluation-function")
    root = "/nowhere/root"
    if expected["task_id"] is not None:
        root += f"/task_{expected['task_id']}"
    if expected["development_stage_id"] is not None:
        root += f"/dev_{expected['development_stage_id']}"
    ctx.check(os.fspath(c["optimization_dir"]) == root, "directory", c["optimization_dir"])
    if bool(expected["post_run_summary"]):
        ctx.check([os.fspath(x) for x in rt.csv] == [root], "summary-of-the-run", rt.csv)
        ctx.cover("summary")
    else:
        ctx.check(rt.csv == [], "no-summary")
        ctx.cover("no-summary")
    name, a = log[0]
    ctx.check(len(log) == 1 and name == "random_search" and c["optimizer"] == ("searcher", name), "searcher", name)
    for k in ("loss_value_on_error", "cost_value_on_error", "ignore_errors"):
        ctx.check(equal(ctx, a[k], expected[k]), f"searcher-{k}", a[k])
    ctx.cover("started-from-" + ("both" if any_yaml else "arguments"))


def nest(ctx, content):
    """settings may be grouped in the file"""
    how = ctx.choice("nesting", ["flat", "grouped"])
    if how == "flat" or not content:
        return content
    ks = list(content)
    return {"group": {ks[0]: content[ks[0]], "deeper": {k: content[k] for k in ks[1:]}}, "empty": {}}


def own(ctx):
    """search space, evaluation function and searcher given in the file or as arguments"""
    import neps
    import neps.utils.run_args as ra
    ctx.messages_as_tokens()
    rt = Runtime(ctx)
    log = searchers(ctx)
    from neps.search_spaces import FloatParameter

    def g(x):
        return x
    old = ra.load_and_return_object
    ctx.on_exit(lambda: setattr(ra, "load_and_return_object", old))
    ra.load_and_return_object = lambda path, name, key: {"f": f, "g": g}[name]
    content = {"max_evaluations_total": ctx.int("n", 1, 9), "root_directory": "/nowhere/yaml"}
    kw = {}
    fn = ctx.choice("function-from", ["argument", "yaml", "both"])
    if fn != "argument":
        content["run_pipeline"] = {"path": "p.py", "name": "f"}
    if fn != "yaml":
        kw["run_pipeline"] = g
    if ctx.choice("directory-from", ["argument", "yaml"]) == "argument":
        kw["root_directory"] = "/nowhere/arg"
    spc = ctx.choice("space-from", ["argument", "yaml", "both"])
    hi = ctx.real("upper", 1, 50)
    if spc != "argument":
        content["pipeline_space"] = {"y": {"type": "float", "lower": 0.0, "upper": hi}}
    if spc != "yaml":
        kw["pipeline_space"] = {"x": FloatParameter(0.0, hi)}
    se = ctx.choice("searcher-from", ["argument", "yaml", "both", "yaml-dict", "neither"])
    eta = None
    if se in ("yaml", "both"):
        content["searcher"] = "hyperband"
    if se == "yaml-dict":
        eta = ctx.int("eta", 2, 9)
        content["searcher"] = {"strategy": "asha", "eta": eta, **({"name": "mine"} if ctx.choice("named", [False, True]) else {})}
    if se in ("argument", "both"):
        kw["searcher"] = "random_search"
    yaml_file(ctx, content)
    neps.run(run_args="a.yaml", **kw)
    c = rt.calls[0]
    ctx.check(c["evaluation_fn"] is (f if fn == "yaml" else g), "evaluation-function")
    ctx.check(str(c["optimization_dir"]) == ("/nowhere/arg" if "root_directory" in kw else "/nowhere/yaml"), "directory", c["optimization_dir"])
    name, a = log[0]
    ctx.check(name == {"yaml": "hyperband", "yaml-dict": "asha", "neither": "bayesian_optimization"}.get(se, "random_search"), "searcher", name)
    s = a["pipeline_space"]
    ctx.check(list(s) == (["y"] if spc == "yaml" else ["x"]), "space", list(s))
    ctx.check(ctx.eq(s[list(s)[0]].upper, hi), "space-bound")
    if eta is not None:
        ctx.check(ctx.eq(a["eta"], eta) and a["early_stopping_rate"] == 0 and "strategy" not in a and "name" not in a, "searcher-arguments", a)
        ctx.check(c["optimizer_info"]["searcher_name"] == content["searcher"].get("name", "custom_asha"), "searcher-name", c["optimizer_info"])
    ctx.cover(se)


def searcher(ctx):
    """which searcher runs, and with which arguments"""
    import neps.api
    import yaml
    import pathlib
    from neps.search_spaces import FloatParameter, IntegerParameter, CategoricalParameter, ConstantParameter
    ctx.messages_as_tokens()
    log = searchers(ctx)
    prior, fid = ctx.choice("prior", [False, True]), ctx.choice("fidelity", ["none", "with-default", "without"])
    lo = ctx.real("default", 0, 1)
    sp = {"x": FloatParameter(0.0, 1.0), "c": CategoricalParameter(["a", "b"]), "k": ConstantParameter(1)}
    if prior:
        which = ctx.choice("prior-on", ["x", "c"])
        sp[which] = FloatParameter(0.0, 1.0, default=lo) if which == "x" else CategoricalParameter(["a", "b"], default="b")
    if fid != "none":
        sp["e"] = IntegerParameter(1, 9, is_fidelity=True, **(dict(default=ctx.int("fid-default", 1, 9)) if fid == "with-default" else {}))
    folder = pathlib.Path(neps.api.__file__).parent / "optimizers" / "default_searchers"
    named = sorted(x.stem for x in folder.iterdir() if x.suffix == ".yaml")
    who = ctx.choice("searcher", ["default", None] + (named if not prior and fid == "none" else ["hyperband", "pibo"]))
    info = {"searcher_name": "", "searcher_alg": "", "searcher_selection": "", "neps_decision_tree": True, "searcher_args": {}}
    kw = {}
    own = ctx.choice("arguments", ["none", "one", "new"])
    if own == "one":
        kw = {"eta": ctx.int("eta", 2, 9)}
    if own == "new":
        kw = {"eta": ctx.int("eta", 2, 9), "brand_new": ctx.real("brand-new", 0, 1)}
    cost, lv, cv, ie = ctx.real("max-cost", 0, 99), ctx.real("loss-on-error", -9, 9), ctx.real("cost-on-error", -9, 9), ctx.bool("ignore-errors")
    o, inf = neps.api._run_args(info, sp, max_cost_total=cost, ignore_errors=ie, loss_value_on_error=lv, cost_value_on_error=cv, searcher=who, **kw)
    auto = who in ("default", None)
    want = ({(True, True): "priorband", (True, False): "pibo", (False, True): "hyperband", (False, False): "bayesian_optimization"}[(prior, fid != "none")] if auto else who)
    base = yaml.safe_load((folder / f"{want}.yaml").read_text())
    alg = base.pop("strategy")
    ctx.check(len(log) == 1 and o == ("searcher", alg) and log[0][0] == alg, "searcher", (log[0][0], alg))
    a = dict(log[0][1])
    exp = {**base, **({} if auto else kw), "loss_value_on_error": lv, "cost_value_on_error": cv, "ignore_errors": ie, "budget": cost}
    s = a.pop("pipeline_space")
    ctx.check(list(s) == sorted(sp) and all(s[k] is sp[k] for k in sp), "space")
    partial = {"bayesian_optimization": {"use_priors": base.get("use_priors")}, "pibo": {"use_priors": True}, "priorband_bo": {"model_based": True}}.get(alg, {})
    exp = {**partial, **exp}
    ctx.check(set(a) == set(exp), "arguments", (set(a) ^ set(exp)))
    for k in exp:
        ctx.check(equal(ctx, a[k], exp[k]), "argument", (k, a[k], exp[k]))
    ctx.check(inf["searcher_name"] == want and inf["searcher_alg"] == alg and inf["neps_decision_tree"] is auto, "description", inf)
    shown = {k: v for k, v in exp.items() if k not in ("loss_value_on_error", "cost_value_on_error", "ignore_errors", "budget")}
    got = inf["searcher_args"]
    ctx.check(set(got) >= set(base) and all(equal(ctx, got[k], shown[k]) if not isinstance(shown[k], dict) else got[k] == shown[k] for k in got if k in shown), "described-arguments", got)
    ctx.cover(("chosen-" if auto else "named-") + own)


A = ["the runtime and the searchers' classes are recorders", "YAML files are given as their content"]
HARNESSES = [
    H(settings, "four groups of three settings, each from the arguments, the file, both or neither, any values", RUN, assumptions=A,
      covers=["started-from-both", "started-from-arguments", "summary", "no-summary", "no-budget-refused", "lifted"]),
    H(own, "space, function, directory and searcher each from the arguments, the file or both", RUN, assumptions=A, covers=["argument", "yaml", "both", "yaml-dict", "neither"]),
    H(searcher, "every shipped searcher, and the default for every kind of space, with any arguments", RUN, assumptions=A,
      covers=["chosen-none", "chosen-one", "chosen-new", "named-none", "named-one", "named-new"]),
]
