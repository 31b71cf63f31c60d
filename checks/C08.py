"""C08: what an evaluation returns is what is recorded."""
from symx.runner import H
from symx import core
from . import rt


def opt_real(ctx, name, lo=-100, hi=100):
    return ctx.real(name, lo, hi) if ctx.choice("has_" + name, [False, True]) else None


def eq(ctx, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
            return False
        r = True
        for x, y in zip(a, b):
            r = core.sym_and(r, ctx.eq(x, y))
        return r
    return ctx.eq(a, b)


def mk_result(ctx):
    """-> (what the user function returns, loss, cost, curve, extra); absent cost/curve as the string 'absent'"""
    loss = ctx.real("loss", -100, 100)
    form = ctx.choice("form", ["number", "dict", "dict-info", "dict-info-curve"])
    if form == "number":
        return loss, loss, "absent", "absent", {}
    d = {"loss": loss}
    cost, curve = "absent", "absent"
    if ctx.choice("gives_cost", [False, True]):
        cost = ctx.real("cost", 0, 100)
        d["cost"] = cost
    extra = {}
    if ctx.choice("gives_curve", [False, True]) or form == "dict-info-curve":
        curve = [ctx.real("lc0", -9, 9), ctx.real("lc1", -9, 9)]
    if form == "dict-info-curve":
        d["info_dict"] = {"learning_curve": curve, "k": 3}
        extra = {"info_dict": {"k": 3}}
    elif curve != "absent":
        d["learning_curve"] = curve
    if form == "dict-info":
        d["info_dict"] = {"k": 4}
        extra = {"info_dict": {"k": 4}}
    if ctx.choice("extra_key", [False, True]):
        d["acc"] = extra["acc"] = ctx.real("acc", 0, 1)
    return d, loss, cost, curve, extra


def mk_defaults(ctx):
    dc = opt_real(ctx, "cost_if_not_provided", 0, 50)
    dl = ctx.choice("default_curve", ["loss", None, "list"])
    dl = [5.5, 6.5] if dl == "list" else dl
    return dc, dl


def recorded(ctx):
    rt.reset_globals(ctx)
    clk = rt.clock(ctx)
    root = rt.scratch(ctx)
    st = rt.state(root)
    res, loss, cost, curve, extra = mk_result(ctx)
    dc, dl = mk_defaults(ctx)
    le = opt_real(ctx, "loss_value_on_error")
    rep = rt.defaults(cost_if_not_provided=dc, learning_curve_if_not_provided=dl, loss_value_on_error=le, cost_value_on_error=77.0,
                      learning_curve_on_error=[88.0])
    ds, de = ctx.real("dt_sample", 0, 10), ctx.real("dt_eval", 0, 10)

    def evaluate(x):
        clk.advance(de)
        return res
    w = rt.worker(st, rt.Asker(lambda: clk.advance(ds)), evaluate, rt.settings(rep, max_evaluations_for_worker=1))
    w.run()
    st2 = rt.state(root)
    ts = st2.get_all_trials()
    ctx.check(list(ts) == ["1"], "one-trial", list(ts))
    t = ts["1"]
    want_cost = dc if cost == "absent" else cost
    want_curve = ([loss] if dl == "loss" else dl) if curve == "absent" else curve
    r = t.report
    ctx.check(t.state.value == "success" and r is not None and r.reported_as == "success", "state", t.state)
    ctx.check(r.trial_id == "1", "report-id")
    ctx.check(eq(ctx, r.loss, loss), "loss", r.loss)
    ctx.check(isinstance(r.loss, float), "loss-is-float")
    ctx.check(eq(ctx, r.cost, want_cost), "cost", (r.cost, want_cost))
    ctx.check(eq(ctx, r.learning_curve, want_curve), "learning-curve", r.learning_curve)
    ctx.check(set(r.extra) == set(extra), "extra-keys", r.extra)
    if "acc" in extra:
        ctx.check(eq(ctx, r.extra["acc"], extra["acc"]), "extra-acc")
    if "info_dict" in extra:
        ctx.check(dict(r.extra["info_dict"]) == extra["info_dict"], "extra-info", r.extra)
    ctx.check(r.err is None and r.tb is None, "no-error", r.err)
    ctx.check(eq(ctx, r.evaluation_duration, de), "duration", r.evaluation_duration)
    m = t.metadata
    ctx.check(m.evaluating_worker_id == "w" and m.sampling_worker_id == "w" and m.id == "1", "worker", m)
    ctx.check(core.sym_and(eq(ctx, m.time_sampled, 1000.0 + ds), eq(ctx, m.time_started, 1000.0 + ds)), "time-started", m)
    ctx.check(core.sym_and(eq(ctx, m.time_end, 1000.0 + ds + de), eq(ctx, m.evaluation_duration, de)), "time-end", m)
    ctx.check(dict(t.config) == {"x": 1}, "config", t.config)
    ctx.check(not st2.get_errors().errs, "no-errors")
    used = st2.optimizer_state().budget.used_cost_budget
    ctx.check(eq(ctx, used, 0.0 if want_cost is None else want_cost), "used-cost", used)
    ctx.cover("recorded")


def failed(ctx):
    rt.reset_globals(ctx)
    clk = rt.clock(ctx)
    root = rt.scratch(ctx)
    st = rt.state(root)
    le, ce = opt_real(ctx, "loss_value_on_error"), opt_real(ctx, "cost_value_on_error", 0, 50)
    lc = ctx.choice("curve_on_error", [None, [1.0, 2.0]])
    rep = rt.defaults(loss_value_on_error=le, cost_value_on_error=ce, learning_curve_on_error=lc, cost_if_not_provided=66.0,
                      learning_curve_if_not_provided="loss")
    de = ctx.real("dt_eval", 0, 10)

    def evaluate(x):
        clk.advance(de)
        raise ValueError("boom")
    w = rt.worker(st, rt.Asker(), evaluate, rt.settings(rep, max_evaluations_for_worker=1))
    w.run()
    st2 = rt.state(root)
    t = st2.get_all_trials()["1"]
    r = t.report
    ctx.check(t.state.value == "crashed" and r is not None and r.reported_as == "crashed", "state", t.state)
    ctx.check(eq(ctx, r.loss, le), "loss-on-error", r.loss)
    ctx.check(eq(ctx, r.cost, ce), "cost-on-error", r.cost)
    ctx.check(r.learning_curve == lc, "curve-on-error", r.learning_curve)
    ctx.check(str(r.err) == "boom" and "ValueError" in (r.tb or ""), "error", r.err)
    ctx.check(core.sym_and(eq(ctx, r.evaluation_duration, de), eq(ctx, t.metadata.evaluation_duration, de)), "duration")
    ctx.check(eq(ctx, t.metadata.time_end, 1000.0 + de), "time-end")
    e = st2.get_errors().errs
    ctx.check(len(e) == 1 and (e[0].trial_id, e[0].worker_id, e[0].err_type, e[0].err) == ("1", "w", "ValueError", "boom")
              and "ValueError" in e[0].tb, "error-record", e)
    used = st2.optimizer_state().budget.used_cost_budget
    ctx.check(eq(ctx, used, 0.0 if ce is None else ce), "used-cost", used)
    ctx.cover("failed")


def parse(ctx):
    """the interpretation of the returned value, on its own; the caller's mapping is left alone"""
    from neps.state._eval import _eval_trial
    from neps.state.trial import Trial
    rt.clock(ctx)
    res, loss, cost, curve, extra = mk_result(ctx)
    keys = set(res) if isinstance(res, dict) else None
    dc, dl = mk_defaults(ctx)
    t = Trial.new(trial_id="1", config={"a": 1, "b": 2}, location="", previous_trial=None, previous_trial_location=None, time_sampled=1.0,
                  worker_id="w")
    got = {}

    def fn(**kw):
        got.update(kw)
        return res
    r = _eval_trial(trial=t, default_report_values=rt.defaults(cost_if_not_provided=dc, learning_curve_if_not_provided=dl), fn=fn, z=9)
    ctx.check(got == {"a": 1, "b": 2, "z": 9}, "arguments", got)
    ctx.check(eq(ctx, r.loss, loss), "loss", r.loss)
    ctx.check(eq(ctx, r.cost, dc if cost == "absent" else cost), "cost", r.cost)
    ctx.check(eq(ctx, r.learning_curve, ([loss] if dl == "loss" else dl) if curve == "absent" else curve), "curve", r.learning_curve)
    if keys is not None:
        ctx.check(set(res) == keys, "returned-mapping-untouched", res)
    ctx.cover("parsed")


def cumulate(ctx):
    """two evaluations: used cost of the directory and counters of the worker"""
    rt.reset_globals(ctx)
    clk = rt.clock(ctx)
    root = rt.scratch(ctx)
    first = ctx.real("used_before", 0, 50)
    st = rt.state(root, used_cost_budget=first)
    tot, dur, i = 0.0, 0.0, [0]
    plan = []
    ce = ctx.real("cost_value_on_error", 0, 9)
    for _ in range(ctx.n):
        k = ctx.choice("kind", ["cost", "none", "error"])
        plan.append((k, ctx.real("cost", 0, 9), ctx.real("dt", 0, 9)))

    def evaluate(x):
        k, c, d = plan[i[0]]
        i[0] += 1
        clk.advance(d)
        if k == "error":
            raise RuntimeError("x")
        return {"loss": 0.0, "cost": c} if k == "cost" else 0.5
    w = rt.worker(st, rt.Asker(), evaluate, rt.settings(rt.defaults(cost_value_on_error=ce), max_evaluations_for_worker=ctx.n))
    w.run()
    for k, c, d in plan:
        tot = tot + {"cost": c, "none": 0.0, "error": ce}[k]
        dur = dur + d
    st2 = rt.state(root, used_cost_budget=1000.0)
    b = st2.optimizer_state().budget
    ctx.check(eq(ctx, b.used_cost_budget, first + tot), "used-cost-is-sum", b.used_cost_budget)
    ctx.check(eq(ctx, w.worker_cumulative_eval_cost, tot), "worker-cost", w.worker_cumulative_eval_cost)
    ctx.check(w.worker_cumulative_eval_count == ctx.n, "worker-count")
    ctx.check(eq(ctx, w.worker_cumulative_evaluation_time_seconds, dur), "worker-time")
    ts = st2.get_all_trials()
    ctx.check(sorted(ts) == [str(j + 1) for j in range(ctx.n)], "trials", sorted(ts))
    for j, (k, c, d) in enumerate(plan):
        t = ts[str(j + 1)]
        ctx.check(t.state.value == ("crashed" if k == "error" else "success"), "state")
        ctx.check(core.sym_and(eq(ctx, t.report.cost, {"cost": c, "none": None, "error": ce}[k]), eq(ctx, t.report.evaluation_duration, d)), "own-values")
    ctx.cover("done")


def _cum(n):
    def f(ctx):
        ctx.n = n
        cumulate(ctx)
    f.__name__ = f"cumulate{n}"
    return f


B = "any loss in [-100,100], cost in [0,100], curve of two values, extra key, info_dict; every default (absent, or any value)"
HARNESSES = [
    H(recorded, B, rt.F_RUN, covers=["recorded"], assumptions=rt.ASSUME),
    H(failed, "every combination of configured error values", rt.F_RUN, covers=["failed"], assumptions=rt.ASSUME),
    H(parse, B, rt.F_RUN[2:4], covers=["parsed"], assumptions=rt.ASSUME),
    H(_cum(2), "two evaluations", rt.F_RUN, covers=["done"], assumptions=rt.ASSUME),
    H(_cum(3), "three evaluations", rt.F_RUN, covers=["done"], assumptions=rt.ASSUME, thorough_only=True),
]
