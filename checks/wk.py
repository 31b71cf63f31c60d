"""Worker programs and initial storages shared by the concurrency/crash checks."""
from __future__ import annotations

from pathlib import Path

from symx import conc, core

RESULT = {"A": {"loss": 1.5, "cost": 1.0}, "B": {"loss": 2.5, "cost": 2.0}, "I": {"loss": 9.0, "cost": 4.0}}

F_STATE = [
    "neps.state.filebased.* (TrialRepoInDirectory, FileVersioner, FileLocker, all ReaderWriters, create_or_load/load)",
    "neps.state.protocols.{Synced,VersionedResource}.*", "neps.state.neps_state.NePSState.*",
    "neps.utils.files.*"]
F_WORKER = [*F_STATE, "neps.runtime.DefaultWorker.*", "neps.state._eval.evaluate_trial", "neps.state.trial.Trial.*",
            "neps.optimizers.random_search.optimizer.RandomSearch.ask", "neps.state.seed_snapshot.SeedSnapshot.*"]
ASSUME = [
    "each open/write/rename/mkdir/stat/listdir/lock call is one atomic step; a written file shows its content when it is closed "
    "(before: empty); a lock dies with its holder (flock semantics); no power loss, no network file system caching",
    "two workers; clock and uuid are deterministic stand-ins (all uuids distinct); evaluation function returns fixed values",
]


def optimizer():
    import neps.search_spaces as ss
    from neps.optimizers.random_search.optimizer import RandomSearch
    return RandomSearch(pipeline_space=ss.SearchSpace(x=ss.FloatParameter(0.0, 1.0)))


def open_state(root):
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
    return create_or_load_filebased_neps_state(
        Path(root), optimizer_info=OptimizerInfo({"searcher": "random_search"}),
        optimizer_state=OptimizationState(
            budget=BudgetInfo(max_cost_budget=100.0, used_cost_budget=0.0, max_evaluations=100, used_evaluations=0),
            shared_state={}))


def settings(**kw):
    from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings
    d = dict(on_error=OnErrorPossibilities.IGNORE,
             default_report_values=DefaultReportValues(
                 loss_value_on_error=None, cost_value_on_error=None, cost_if_not_provided=None,
                 learning_curve_on_error=None, learning_curve_if_not_provided="loss"),
             max_evaluations_total=None, include_in_progress_evaluations_towards_maximum=True, max_cost_total=None,
             max_evaluations_for_worker=1, max_evaluation_time_total_seconds=None,
             max_wallclock_time_for_worker_seconds=None, max_evaluation_time_for_worker_seconds=None,
             max_cost_for_worker=None)
    d.update(kw)
    return WorkerSettings(**d)


def opened(root, who):
    """prelude: the worker process has opened the (existing) state"""
    return open_state(root)


def worker(root, who, state=None, fail=False, **kw):
    from neps.runtime import DefaultWorker, get_in_progress_trial
    if state is None:
        state = open_state(root)

    def evaluate(x):
        conc.mark("eval", get_in_progress_trial().id, repr(x))
        if fail:
            raise RuntimeError("boom " + who)
        return dict(RESULT[who])
    w = DefaultWorker.new(state=state, optimizer=optimizer(), settings=settings(**kw), evaluation_fn=evaluate,
                          worker_id="worker-" + who)
    w.run()
    conc.mark("finished", w.worker_cumulative_eval_count)


def run1(root, who, state=None):
    worker(root, who, state)


def run1_fail(root, who, state=None):
    worker(root, who, state, fail=True)


def run2(root, who, state=None):
    worker(root, who, state, max_evaluations_for_worker=2)


def total2(root, who, state=None):
    """stop at two evaluations overall (in progress ones included)"""
    worker(root, who, state, max_evaluations_for_worker=None, max_evaluations_total=2)


def sample(root, who, state=None):
    state = state or open_state(root)
    t = state.sample_trial(optimizer(), worker_id="worker-" + who)
    conc.mark("sampled", t.id, repr(t.config["x"]))


def start(root, who, state=None):
    st = open_state(root)
    conc.mark("opened", st.optimizer_info().info.get("searcher"), st.optimizer_state().budget.used_cost_budget)


def my_trial(who):
    return {"A": "1", "B": "2"}[who]


def report(root, who, state=None, err=None):
    t = state.get_trial_by_id(my_trial(who))
    r = t.set_complete(report_as="success" if err is None else "failed", time_end=50.0, loss=RESULT[who]["loss"],
                       cost=RESULT[who]["cost"], err=err, tb=None, extra={}, evaluation_duration=1.0,
                       learning_curve=None)
    state.report_trial_evaluation(t, r, worker_id="worker-" + who)
    conc.mark("reported", t.id)


def report_err(root, who, state=None):
    report(root, who, state, err=RuntimeError("boom " + who))


def claim(root, who, state=None):
    from neps.exceptions import VersionMismatchError
    t = state.get_trial_by_id("1")
    if t.state.value != "pending":
        conc.mark("late", t.state.value)
        return
    t.set_evaluating(time_started=7.0, worker_id="worker-" + who)
    try:
        state.put_updated_trial(t)
    except VersionMismatchError:
        conc.mark("lost")
    else:
        conc.mark("won", "worker-" + who)


# ---- initial storages


def empty(root):
    return None


def fresh(root):
    open_state(root)


def pending(root, n=1):
    st = open_state(root)
    for _ in range(n):
        st.sample_trial(optimizer(), worker_id="worker-I")


def pending2(root):
    pending(root, 2)


def evaluating2(root):
    pending(root, 2)
    st = open_state(root)
    for i, w in (("1", "A"), ("2", "B")):
        t = st.get_trial_by_id(i)
        t.set_evaluating(time_started=3.0, worker_id="worker-" + w)
        st.put_updated_trial(t)


def one_done(root):
    open_state(root)
    worker(root, "I")


# ---- audit: a fresh process reads everything back through the public state API


def audit(root, who):
    from neps.state.filebased import load_filebased_neps_state
    st = load_filebased_neps_state(Path(root))
    tr = st.get_all_trials()
    conc.mark("audit", tuple(sorted(
        (i, t.state.value, t.metadata.evaluating_worker_id, repr(t.config.get("x")),
         None if t.report is None else (t.report.loss, t.report.cost, t.report.reported_as))
        for i, t in tr.items())),
        st.optimizer_state().budget.used_cost_budget,
        tuple(sorted((e.trial_id, e.worker_id) for e in st.get_errors().errs)))


class A:
    """audit record"""

    def __init__(self, J):
        self.ok = J.audit is not None and J.audit["exc"] is None
        self.trials, self.cost, self.errs = {}, None, ()
        if self.ok:
            m = next(m for m in J.audit["marks"] if m[0] == "audit")
            self.trials = {t[0]: t for t in m[1]}
            self.cost, self.errs = m[2], m[3]


# ---- judges


def survives(J, finishes=True):
    J.check(J.a["exc"] is None, "worker-survives", J.a["exc"])
    if finishes and J.a["exc"] is None:
        J.check(len(J.a_marks("finished")) == 1, "worker-finishes", J.a["marks"])


def exclusive(J):
    a = [m[1] for m in J.a_marks("eval")]
    J.check(len(a) == len(set(a)), "one-evaluation-per-trial", a)
    for m, ex in J.b_marks("eval"):
        if m[1] in a:
            J.check(core.sym_not(ex), "one-evaluation-per-trial", (a, m))


def audit_ok(J):
    J.check(J.audit["exc"] is None, "state-readable-afterwards", J.audit["exc"])


def recorded(J):
    """what finished workers evaluated is stored, with the right numbers."""
    au = A(J)
    if not au.ok:
        return
    for m in J.a_marks("eval") if J.a_marks("finished") else []:
        t = au.trials.get(m[1])
        J.check(t is not None and t[4] is not None and t[4][:2] == (1.5, 1.0) and t[1] == "success" and t[2] == "worker-A",
                "result-recorded", (m, au.trials))
    fin = J.b_marks("finished")
    for m, ex in J.b_marks("eval"):
        t = au.trials.get(m[1])
        good = t is not None and t[4] is not None and t[4][:2] == (2.5, 2.0) and t[1] == "success" and t[2] == "worker-B"
        for _f, fx in fin:
            J.check(core.implies(fx, good), "result-recorded", (m, au.trials))


def fn(scs, name, bounds, functions=F_WORKER, thorough_only=False, covers=(), budget=None):
    """One harness out of a list of scenarios."""
    from symx.runner import H
    h = H(None, bounds, functions, name=name, custom=lambda tier, b: conc.run_scenarios(scs, tier, b),
          thorough_only=thorough_only, covers=covers, assumptions=ASSUME, budget=budget)
    h.scs = {s.name: s for s in scs}
    return h


def replayer(harnesses):
    def REPLAY(name, j):  # noqa: N802
        x = j["extra"]
        h = next(h for h in harnesses if h.name == name)
        return conc.replay_schedule(h.scs[x["scenario"]], x)
    return REPLAY
