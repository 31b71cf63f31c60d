"""C10: continuing a run: what is on disk is kept, a different optimizer is refused, limits mean what neps.run says."""
import os
from symx.runner import H
from symx import core
from . import rt

F = ["neps.runtime._launch_runtime", "neps.state.filebased.create_or_load_filebased_neps_state", *rt.F_RUN]


def launch(root, evaluate, optimizer=None, info=None, **kw):
    import neps.runtime as r
    d = dict(optimizer_info=info or {"searcher": "stub"}, optimization_dir=root / "r", max_cost_total=None, ignore_errors=True,
             loss_value_on_error=None, cost_value_on_error=None, continue_until_max_evaluation_completed=False,
             overwrite_optimization_dir=False, max_evaluations_total=None, max_evaluations_for_worker=None, pre_load_hooks=None)
    d.update(kw)
    r._launch_runtime(evaluation_fn=evaluate, optimizer=optimizer or rt.Asker(), **d)


def snapshot(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def info_match(ctx):
    """same optimizer description: accepted; different: refused and nothing touched"""
    from neps.exceptions import NePSError
    rt.reset_globals(ctx)
    root = rt.scratch(ctx)
    vals = [1, 2.5, True, None, "s", [1, 2], {"a": 1}, (1, 2), {"t": (1, "x")}, {}]
    mine = {"searcher_name": "n", "args": {"a": ctx.choice("v", vals), "b": ctx.int("b", 0, 3)}}
    theirs = {"searcher_name": "n", "args": dict(mine["args"])}
    dim = ctx.choice("difference", ["none", "name", "value", "number", "more-keys", "fewer-keys", "nested-key"])
    if dim == "name":
        theirs["searcher_name"] = "m"
    elif dim == "value":
        theirs["args"]["a"] = ctx.choice("v2", vals)
    elif dim == "number":
        theirs["args"]["b"] = ctx.int("b2", 0, 3)
    elif dim == "more-keys":
        theirs["k"] = 1
    elif dim == "fewer-keys":
        mine["k"] = None
    elif dim == "nested-key":
        theirs["args"]["c"] = None
    st = rt.state(root, info=mine)
    rt.add_trial(st, "1", "success", cost=2.0)

    def norm(x):
        return [norm(y) for y in x] if isinstance(x, (list, tuple)) else {k: norm(v) for k, v in x.items()} if isinstance(x, dict) else x
    a, b = norm(mine), norm(theirs)
    equal = (a["args"]["a"] == b["args"]["a"] and a["searcher_name"] == b["searcher_name"] and set(a) == set(b) and set(a["args"]) == set(b["args"])
             and bool(mine["args"]["b"] == theirs["args"]["b"]))
    before = snapshot(root / "r")
    try:
        st2 = rt.state(root, info=theirs)
        ok = True
    except NePSError:
        ok = False
    ctx.check(ok == equal, "accepted-iff-same-optimizer", (mine, theirs))
    after = snapshot(root / "r")
    ctx.check(before == after, "opening-changes-nothing", sorted(k for k in after if after.get(k) != before.get(k)))
    if ok:
        ctx.check(st2.all_trial_ids() == {"1"} and st2.optimizer_state().budget.used_cost_budget == 2.0, "kept")
        ctx.cover("same")
    else:
        ctx.cover("different")


def continued(ctx):
    """a run split over several launches does the same number of evaluations as one launch, and loses nothing"""
    rt.reset_globals(ctx)
    rt.clock(ctx)
    root = rt.scratch(ctx)
    total = ctx.int("max_evaluations_total", 0, ctx.n + 1)
    done, seen = [], []

    def evaluate(x):
        done.append(len(done))
        return {"loss": float(len(done)), "cost": 1.0}
    for k in range(ctx.n):
        per = ctx.int("max_evaluations_per_run", 0, 2)
        overwrite = ctx.choice("overwrite", [False, True]) if k == 1 else False
        before = len(done)
        prior = 0 if overwrite else sum(seen)
        if overwrite:
            seen = []
        launch(root, evaluate, max_evaluations_total=total, max_evaluations_for_worker=per, overwrite_optimization_dir=overwrite)
        n = len(done) - before
        want = core.ite(total - prior < per, total - prior, per)
        want = core.ite(want < 0, 0, want)
        ctx.check(n == want, "evaluations-of-this-launch", n)
        seen.append(n)
        st = rt.state(root)
        ts = st.get_all_trials()
        ctx.check(len(ts) == sum(seen), "trials-on-disk", len(ts))
        ctx.check(sorted(int(t.report.loss) - 1 for t in ts.values()) == list(range(len(done) - sum(seen), len(done))), "results-kept")
        ctx.check(st.optimizer_state().budget.used_cost_budget == float(sum(seen)), "used-cost")
    ctx.cover("done")


def limits(ctx):
    """the limits of neps.run as the user gives them"""
    rt.reset_globals(ctx)
    rt.clock(ctx)
    root = rt.scratch(ctx)
    st = rt.state(root)
    pk = ctx.choice("existing", [None, "success", "crashed", "evaluating"])
    pc = ctx.real("existing_cost", 0, 10)
    if pk:
        rt.add_trial(st, "1", pk, cost=pc)
    kw = {}
    if ctx.choice("has_total", [True, False]):
        kw["max_evaluations_total"] = ctx.int("max_evaluations_total", 0, 3)
    if ctx.choice("has_cost", [True, False]):
        kw["max_cost_total"] = ctx.real("max_cost_total", 0, 20)
    if ctx.choice("has_per_run", [True, False]):
        kw["max_evaluations_for_worker"] = ctx.int("max_evaluations_per_run", 0, 3)
    until = ctx.choice("continue_until_max_evaluation_completed", [False, True])
    ce = ctx.real("cost_value_on_error", 0, 10)
    le = ctx.real("loss_value_on_error", 0, 10)
    led = dict(n=0, tot=1 if pk in ("success", "crashed") else 0, cost=pc if pk in ("success", "crashed") else 0.0)
    prog = 1 if pk == "evaluating" and not until else 0

    class Stop(BaseException):
        pass

    def hit():
        r = False
        if "max_evaluations_total" in kw:
            r = core.sym_or(r, led["tot"] + prog >= kw["max_evaluations_total"])
        if "max_cost_total" in kw:
            r = core.sym_or(r, led["cost"] >= kw["max_cost_total"])
        if "max_evaluations_for_worker" in kw:
            r = core.sym_or(r, led["n"] >= kw["max_evaluations_for_worker"])
        return r

    def evaluate(x):
        ctx.check(core.sym_not(hit()), "evaluated-beyond-limit")
        if led["n"] >= 2:
            raise Stop()
        fail = ctx.choice("fails", [False, True])
        c = ce if fail else ctx.real("cost", 0, 10)
        led["n"] += 1
        led["tot"] += 1
        led["cost"] = led["cost"] + c
        if fail:
            raise RuntimeError("x")
        return {"loss": 1.0, "cost": c}
    try:
        launch(root, evaluate, cost_value_on_error=ce, loss_value_on_error=le, continue_until_max_evaluation_completed=until, **kw)
    except Stop:
        return
    ctx.check(hit(), "stopped-without-limit")
    for t in rt.state(root).get_all_trials().values():
        if t.metadata.evaluating_worker_id != "other" and t.state.value == "crashed":
            ctx.check(core.sym_and(ctx.eq(t.report.loss, le), ctx.eq(t.report.cost, ce)), "configured-error-values")
            ctx.cover("error-values")
    ctx.cover("stopped")


def _c(n):
    def f(ctx):
        ctx.n = n
        continued(ctx)
    f.__name__ = f"continued{n}"
    return f


HARNESSES = [
    H(info_match, "ten argument values, names and keys on either side", F, covers=["same", "different"], assumptions=rt.ASSUME),
    H(_c(2), "two launches, any totals up to 3 and per-run limits up to 2, with or without overwriting", F, covers=["done"], assumptions=rt.ASSUME),
    H(limits, "one existing trial, up to 2 evaluations, any limits", F, covers=["stopped", "error-values"], assumptions=rt.ASSUME),
    H(_c(3), "three launches", F, covers=["done"], assumptions=rt.ASSUME, thorough_only=True),
]
