"""C07: what a failed evaluation does to this worker and to the others follows the error policy."""
from symx.runner import H
from symx import core
from . import rt

F = rt.F_RUN + ["neps.state.err_dump.*"]


class Stop(BaseException):
    pass


class Odd(Exception):
    """cannot be rebuilt from its args"""

    def __init__(self, a, b):
        super().__init__(f"{a}-{b}")
        self.a, self.b = a, b


ERRS = {"RuntimeError": lambda i: RuntimeError(f"boom {i}"), "two-argument": lambda i: Odd("boom", i), "empty": lambda i: ValueError(),
        "unicode": lambda i: OSError(2, f"schlie\u00dfen\n\u2028{i}", "f.txt")}


def policy(ctx):
    from neps.exceptions import WorkerRaiseError
    from neps.state.settings import OnErrorPossibilities as P
    rt.reset_globals(ctx)
    clk = rt.clock(ctx)
    root = rt.scratch(ctx)
    st = rt.state(root)
    pol = ctx.choice("on_error", list(P))
    n = ctx.tier_n
    before = ctx.choice("earlier_error_of_other_worker", [False, True])
    if before:
        rt.add_trial(st, "1", ctx.choice("earlier_kind", ["crashed", "failed"]))
    made, errs = [], []
    other = [before]

    def evaluate(x):
        if len(made) >= n:
            raise Stop()
        made.append(x)
        clk.advance(1.0)
        # another worker reports an error while this evaluation runs
        if ctx.bool("other_fails_now"):
            rt.add_trial(rt.state(root), str(50 * len(made)), "crashed")
            other[0] = True
        if ctx.bool("fails"):
            e = RuntimeError(f"boom {len(made)}")
            errs.append(e)
            raise e
        errs.append(None)
        return 1.0

    w = rt.worker(st, rt.Asker(), evaluate, rt.settings(on_error=pol))
    raised = None
    stopped = True
    try:
        w.run()
    except Stop:
        stopped = False
    except WorkerRaiseError as e:
        raised = e
    own = any(e is not None for e in errs)
    mine = pol in (P.RAISE_WORKER_ERROR, P.STOP_WORKER_ERROR, P.RAISE_ANY_ERROR, P.STOP_ANY_ERROR)
    anyp = pol in (P.RAISE_ANY_ERROR, P.STOP_ANY_ERROR)
    must = (own and mine) or (other[0] and anyp)
    ctx.check(stopped == must, "stops-exactly-on-errors-of-the-policy", (pol, own, other[0], stopped))
    if anyp and before:
        ctx.check(not made, "no-evaluation-after-a-known-error")
    if mine and own:
        ctx.check(errs[-1] is not None and not any(errs[:-1]), "no-evaluation-after-own-error")
    if stopped:
        ctx.check((raised is not None) == (pol in (P.RAISE_ANY_ERROR, P.RAISE_WORKER_ERROR)), "raises-exactly-if-asked-to", pol)
        if raised is not None and own:
            ctx.check(raised.__cause__ is errs[-1], "raised-from-the-error")
        ctx.cover("stopped")
        if not own:
            ctx.cover("stopped-by-other")
    else:
        ctx.cover("continued")
    # all of it is on record for other workers and later runs
    st2 = rt.state(root)
    nerr = sum(e is not None for e in errs)
    mine_rec = [e for e in st2.get_errors().errs if e.worker_id == "w"]
    ctx.check(len(mine_rec) == nerr, "every-error-recorded", len(mine_rec))
    ts = st2.get_all_trials()
    got = sum(t.state.value == "crashed" and t.metadata.evaluating_worker_id == "w" for t in ts.values())
    ctx.check(got == nerr, "every-failed-trial-crashed", got)


def kinds(ctx):
    """any kind of exception is recorded and does not take the worker down"""
    rt.reset_globals(ctx)
    rt.clock(ctx)
    root = rt.scratch(ctx)
    st = rt.state(root)
    kind = ctx.choice("exception", list(ERRS) + ["no-loss", "none", "text", "curve"])
    e = ERRS[kind](1) if kind in ERRS else None
    n = [0]

    def evaluate(x):
        n[0] += 1
        if n[0] == 1:
            if e is not None:
                raise e
            return {"no-loss": {"cost": 1.0}, "none": None, "text": "hello", "curve": {"loss": 1.0, "learning_curve": ["a"]}}[kind]
        return 2.0
    w = rt.worker(st, rt.Asker(), evaluate, rt.settings(max_evaluations_for_worker=2))
    w.run()
    ctx.check(n[0] == 2, "worker-carries-on")
    st2 = rt.state(root)
    ts = st2.get_all_trials()
    ctx.check(ts["1"].state.value == "crashed" and ts["2"].state.value == "success", "states", (ts["1"].state, ts["2"].state))
    errs = st2.get_errors().errs
    ctx.check(len(errs) == 1 and errs[0].trial_id == "1" and errs[0].worker_id == "w", "error-recorded", errs)
    ctx.check(ts["1"].report.err is not None, "report-has-error")
    if e is not None:
        ctx.check(errs[0].err == str(e) and errs[0].err_type == type(e).__name__, "error-text", errs[0].err)
        ctx.check(str(ts["1"].report.err) == str(e), "report-error-text", ts["1"].report.err)
    ctx.cover(kind)


def interrupted(ctx):
    """an interrupt leaves the evaluation without hurting later runs in the same process"""
    rt.reset_globals(ctx)
    rt.clock(ctx)
    root = rt.scratch(ctx)
    st = rt.state(root)
    exc = ctx.choice("interrupt", [KeyboardInterrupt, SystemExit])
    at = ctx.choice("at", [1, 2])
    n = [0]

    def evaluate(x):
        n[0] += 1
        if n[0] == at:
            raise exc()
        return 1.0
    try:
        rt.worker(st, rt.Asker(), evaluate, rt.settings(max_evaluations_for_worker=2)).run()
        ctx.fail("interrupt-not-propagated")
    except exc:
        pass
    m = []
    rt.worker(rt.state(root), rt.Asker(), lambda x: m.append(x) or 1.0, rt.settings(max_evaluations_for_worker=1)).run()
    ctx.check(len(m) == 1, "later-run-evaluates")
    ctx.cover("ok")


def launch(ctx):
    """neps.run(ignore_errors=...), or both values on error, maps to ignore, else raise on any error"""
    import neps.runtime as r
    from neps.exceptions import WorkerRaiseError
    rt.reset_globals(ctx)
    rt.clock(ctx)
    root = rt.scratch(ctx)
    ign = ctx.choice("ignore_errors", [False, True])
    before = ctx.choice("earlier_error", [False, True])
    le = ctx.real("loss_value_on_error", -10, 10) if ctx.choice("has_loss_value", [False, True]) else None
    ce = ctx.real("cost_value_on_error", -10, 10) if ctx.choice("has_cost_value", [False, True]) else None
    if before:
        rt.add_trial(rt.state(root), "1", "crashed")
    n, fails = [0], []

    def evaluate(x):
        n[0] += 1
        f = bool(ctx.bool("fails"))
        fails.append(f)
        if f:
            raise RuntimeError("boom")
        return 1.0
    raised = False
    try:
        r._launch_runtime(evaluation_fn=evaluate, optimizer=rt.Asker(), optimizer_info={"searcher": "stub"}, optimization_dir=root / "r",
                          max_cost_total=None, ignore_errors=ign, loss_value_on_error=le, cost_value_on_error=ce,
                          continue_until_max_evaluation_completed=False, overwrite_optimization_dir=False,
                          max_evaluations_total=3, max_evaluations_for_worker=None, pre_load_hooks=None)
    except WorkerRaiseError:
        raised = True
    if ign or (le is not None and ce is not None):
        ctx.check(not raised and n[0] == (2 if before else 3), "ignored", n[0])
        ctx.cover("ignored")
    else:
        ctx.check(raised == (before or any(fails)), "raised-iff-any-error")
        ctx.check((not before or n[0] == 0) and not any(fails[:-1]), "nothing-after-the-error")
        ctx.cover("raised" if raised else "clean")


def _n(n):
    def f(ctx):
        ctx.tier_n = n
        policy(ctx)
    f.__name__ = f"policy{n}"
    return f


HARNESSES = [
    H(_n(2), "every policy; up to 2 evaluations, each failing or not, another worker failing before or during any of them", F,
      covers=["stopped", "stopped-by-other", "continued"], assumptions=rt.ASSUME),
    H(kinds, "eight kinds of exception or unusable result", F, covers=list(ERRS), assumptions=rt.ASSUME),
    H(interrupted, "KeyboardInterrupt or SystemExit in the first or second evaluation", F, covers=["ok"], assumptions=rt.ASSUME),
    H(launch, "three evaluations, each failing or not; ignore_errors and either error value set or not", F + ["neps.runtime._launch_runtime"], covers=["ignored", "raised", "clean"],
      assumptions=rt.ASSUME),
    H(_n(4), "up to 4 evaluations", F, covers=["stopped", "stopped-by-other", "continued"], assumptions=rt.ASSUME, thorough_only=True),
]
