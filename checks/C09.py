"""C09: everything written to the optimization directory reads back the same."""
from symx.runner import H
from symx import core
from . import rt

F = ["neps.state.filebased.{ReaderWriterTrial,ReaderWriterSeedSnapshot,ReaderWriterOptimizerInfo,ReaderWriterOptimizationState,ReaderWriterErrDump}",
     "neps.state.filebased.{TrialRepoInDirectory,load_filebased_neps_state,create_or_load_filebased_neps_state}", "neps.utils.files.*",
     "neps.state.trial.*", "neps.state.protocols.*"]

STRINGS = ["a", "", "1", "1e3", "null", "true", "~", "2020-01-01", "- x", "a: b", "#c", "\u00fc\u2028", "x\ny\n", " lead", "'q\"", "0x1f", ".nan", "!!int 3", "\t"]
FLOATS = [0.0, -0.0, 1e-5, 1e22, 5e-324, 1.7976931348623157e308, 0.1 + 0.2, float("inf"), float("-inf"), float("nan"), 123456789.123456789]


def same(ctx, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = core.sym_and(r, same(ctx, x, y))
        return r
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b) and set(a) != set(b):
            return False
        r = True
        for k in a:
            r = core.sym_and(r, same(ctx, a[k], b[k]))
        return r
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str):
        return a.__class__ is b.__class__ and a == b
    if isinstance(a, float) and not core.is_sym(a) and not core.is_sym(b) and a != a:
        return isinstance(b, float) and b != b
    if a.__class__ is not b.__class__:
        return False
    return a == b


def value(ctx, name, kinds=("real", "int", "str", "float", "bool")):
    k = ctx.choice(name + "_kind", list(kinds))
    if k == "real":
        return ctx.real(name, -1000, 1000)
    if k == "int":
        return ctx.int(name, -1000, 1000)
    if k == "str":
        return ctx.choice(name, STRINGS)
    if k == "float":
        return ctx.choice(name, FLOATS)
    return ctx.choice(name, [True, False])


def opt(ctx, name, lo=0, hi=1000):
    return ctx.real(name, lo, hi) if ctx.choice("has_" + name, [False, True]) else None


def trial_fields(t):
    m = t.metadata
    d = {"config": dict(t.config), "state": t.state.value, **{"m_" + k: getattr(m, k) for k in (
        "id", "location", "previous_trial_id", "previous_trial_location", "sampling_worker_id", "time_sampled", "evaluating_worker_id",
        "evaluation_duration", "time_submitted", "time_started", "time_end")}}
    r = t.report
    d["has_report"] = r is not None
    if r is not None:
        d.update({"r_" + k: getattr(r, k) for k in ("trial_id", "loss", "cost", "learning_curve", "extra", "tb", "reported_as", "evaluation_duration")})
        d["r_err"] = None if r.err is None else str(r.err)
    return d


def compare(ctx, a, b, what):
    fa, fb = trial_fields(a), trial_fields(b)
    ctx.check(set(fa) == set(fb), what + "-fields")
    for k in fa:
        ctx.check(same(ctx, fa[k], fb[k]), f"{what}-{k}", (fa[k], fb[k]))


def life(ctx):
    """a trial in any state of its life with any data"""
    from neps.state.trial import Trial
    root = rt.scratch(ctx)
    st = rt.state(root)
    prev = ctx.choice("previous", [None, "7_0"])
    cfg = {"x": ctx.real("x"), "y": "adam"}
    t = Trial.new(trial_id="7_1", config=cfg, location="", previous_trial=prev,
                  previous_trial_location="/a b/config_7_0" if prev else None, time_sampled=ctx.real("time_sampled", 0), worker_id="w:1")
    shared = st._trials.put_new(t)
    stage = ctx.choice("stage", ["pending", "submitted", "evaluating", "success", "failed", "crashed", "corrupted"])
    if stage != "pending":
        if stage == "submitted" or ctx.choice("was_submitted", [False, True]):
            t.set_submitted(time_submitted=ctx.real("time_submitted", 0))
        if stage != "submitted":
            t.set_evaluating(time_started=ctx.real("time_started", 0), worker_id="w:2")
        if stage in ("success", "failed", "crashed"):
            err = None
            if stage != "success":
                err = ctx.choice("err", [RuntimeError("a: b\n c"), ValueError("\u00fc"), KeyError("k")])
            curve = [ctx.real("lc0"), ctx.real("lc1")] if ctx.choice("has_curve", [False, True]) else None
            extra = ctx.choice("extra", [{}, {"info_dict": {"k": [1, 2.5, "s", None, True]}}])
            r = t.set_complete(report_as=stage, time_end=ctx.real("time_end", 0), loss=opt(ctx, "loss", -100), cost=opt(ctx, "cost"), learning_curve=curve, err=err,
                               tb=None if err is None else "Traceback\n  x: 'y'\n", extra=extra, evaluation_duration=opt(ctx, "duration"))
            t.report = r
        if stage == "corrupted":
            t.set_corrupted()
        st.put_updated_trial(t)
    compare(ctx, t, shared.synced(), "own-copy")
    st2 = rt.state(root)   # another process
    ctx.check(st2.all_trial_ids() == {"7_1"}, "ids", st2.all_trial_ids())
    u = st2.get_trial_by_id("7_1")
    compare(ctx, t, u, "read")
    ctx.check(u.metadata.location == str((root / "r" / "configs" / "config_7_1").resolve()), "location", u.metadata.location)
    pend = [p.id for p in st2.get_next_pending_trial(5)]
    ctx.check(pend == (["7_1"] if stage == "pending" else []), "pending-list", pend)
    ctx.cover(stage)


def trial(ctx):
    life(ctx)


def trial_values(ctx):
    """awkward values in the config, in the extra results, or as loss"""
    from neps.state.trial import Trial
    root = rt.scratch(ctx)
    st = rt.state(root)
    slot = ctx.choice("slot", ["config", "nested", "extra", "loss", "cost", "curve"])
    v = ctx.choice("v", FLOATS) if slot in ("loss", "cost", "curve") else value(ctx, "v")
    t = Trial.new(trial_id="1", config={"x": v, "y": 2} if slot == "config" else {"x": 1.0}, location="", previous_trial=None,
                  previous_trial_location=None, time_sampled=1.0, worker_id="w")
    st._trials.put_new(t)
    t.report = t.set_complete(report_as="success", time_end=2.0, loss=v if slot == "loss" else 1.0, cost=v if slot == "cost" else None,
                              learning_curve=[1.0, v] if slot == "curve" else None, err=None, tb=None,
                              extra={"e": v} if slot == "extra" else {"e": {"f": [v, {"g": v}]}} if slot == "nested" else {}, evaluation_duration=1.0)
    st.put_updated_trial(t)
    compare(ctx, t, rt.state(root).get_trial_by_id("1"), "read")
    ctx.cover("success")


def changes(ctx):
    """two processes hold the trial; what one writes, the other reads on its next look"""
    root = rt.scratch(ctx)
    st = rt.state(root)
    rt.add_trial(st, "1", "pending")
    st2 = rt.state(root)
    a = st2.get_trial_by_id("1")
    ctx.check(a.state.value == "pending", "first")
    n = ctx.choice("writes", [1, 2])
    last = None
    for i in range(n):
        t = st.get_trial_by_id("1")
        t.set_evaluating(time_started=ctx.real("ts", 0), worker_id=f"w{i}")
        st.put_updated_trial(t)
        last = t
        if ctx.choice("look", [False, True]):
            compare(ctx, t, st2.get_trial_by_id("1"), "look")
    r = last.set_complete(report_as="success", time_end=ctx.real("te", 0), loss=ctx.real("loss"), cost=None, learning_curve=None, err=None, tb=None,
                          extra={}, evaluation_duration=1.0)
    st.report_trial_evaluation(last, r, worker_id="w")
    compare(ctx, last, st2.get_trial_by_id("1"), "final")
    compare(ctx, last, st2.get_all_trials()["1"], "final-all")
    ctx.cover("ok")


def order(ctx):
    """pending trials are handed out in the order they were sampled"""
    from neps.state.trial import Trial
    root = rt.scratch(ctx)
    st = rt.state(root)
    ts = []
    for i in range(3):
        t = ctx.real("t", 0, 100)
        for o in ts:
            ctx.assume(o != t)
        ts.append(t)
        st._trials.put_new(Trial.new(trial_id=str(i), config={"x": i}, location="", previous_trial=None, previous_trial_location=None,
                                     time_sampled=t, worker_id="w"))
    st2 = rt.state(root)
    got = [int(p.id) for p in st2.get_next_pending_trial(3)]
    ctx.check(sorted(got) == [0, 1, 2], "all-pending", got)
    ctx.check(core.sym_and(ts[got[0]] <= ts[got[1]], ts[got[1]] <= ts[got[2]]), "oldest-first", got)
    ctx.check(st2.get_next_pending_trial().id == str(got[0]), "next-is-first")
    ctx.cover("ok")


def shared(ctx):
    """optimizer state, optimizer info, error list"""
    from neps.state.filebased import load_filebased_neps_state
    from neps.state.optimizer import BudgetInfo, OptimizationState
    root = rt.scratch(ctx)
    st = rt.state(root, info={"searcher": "x", "v": ctx.choice("v", STRINGS), "f": ctx.choice("f", [x for x in FLOATS if x == x])})
    b = None
    if ctx.choice("budget", [True, False]):
        b = BudgetInfo(max_cost_budget=opt(ctx, "max_cost"), used_cost_budget=ctx.real("used", 0),
                       max_evaluations=ctx.int("maxe", 0, 1000) if ctx.choice("has_maxe", [False, True]) else None, used_evaluations=ctx.int("ue", 0, 1000))
    sh = ctx.choice("shared_state", [{}, {"a": 1, "b": [1.5, None]}])
    with st._optimizer_state.acquire() as (_, put):
        put(OptimizationState(budget=b, shared_state=sh))
    st2 = load_filebased_neps_state(root / "r")
    o = st2.optimizer_state()
    ctx.check((o.budget is None) == (b is None), "budget-present")
    if b is not None:
        for k in ("max_cost_budget", "used_cost_budget", "max_evaluations", "used_evaluations"):
            ctx.check(same(ctx, getattr(b, k), getattr(o.budget, k)), "budget-" + k)
    ctx.check(o.shared_state == sh, "shared-state", o.shared_state)
    ctx.check(st2.optimizer_info().info == st.optimizer_info().info, "info", st2.optimizer_info().info)
    ctx.cover("ok")


def errors(ctx):
    root = rt.scratch(ctx)
    st = rt.state(root)
    n = ctx.choice("n", [0, 1, 2, 3])
    want = []
    from neps.state.err_dump import ErrDump
    for i in range(n):
        s = ctx.choice("msg", STRINGS[:1] + ["x\ny", "\u00fc\u2028", '"', ""])
        want.append((f"{i}", f"w{i}", "E", s, ctx.choice("tb", [None, "t\nb"])))
        with st._shared_errors.acquire() as (errs, put):
            errs.append(ErrDump.SerializableTrialError(trial_id=f"{i}", worker_id=f"w{i}", err_type="E", err=s, tb=want[-1][4]))
            put(errs)
    e = rt.state(root).get_errors()
    got = [(x.trial_id, x.worker_id, x.err_type, x.err, x.tb) for x in e.errs]
    ctx.check(got == want, "errors", got)
    ctx.check((e.latest_err_as_raisable() is None) == (n == 0), "latest-none")
    if n:
        ctx.check(f"'{n - 1}'" in str(e.latest_err_as_raisable()), "latest-is-last")
    ctx.cover("ok")


A = rt.ASSUME[1:]
HARNESSES = [
    H(trial, "any stage of a trial, any presence of optional data, any numbers", F, assumptions=A, covers=["pending", "crashed", "success"]),
    H(trial_values, "config and result values: any real, any int, 19 awkward strings, 11 awkward floats, booleans", F, assumptions=A, covers=["success"]),
    H(changes, "two processes; up to 3 writes of one, looks of the other in between", F, assumptions=A, covers=["ok"]),
    H(order, "three pending trials with any sampling times", F, assumptions=A, covers=["ok"]),
    H(shared, "any budget numbers, presence of each", F, assumptions=A, covers=["ok"]),
    H(errors, "up to 3 errors", F, assumptions=A, covers=["ok"]),
]
