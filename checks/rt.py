"""Single-worker runs of the real runtime on a real (scratch) directory with symbolic results, limits and clock."""
from __future__ import annotations

import shutil
import tempfile
from pathlib import Path

from symx import envshim

F_RUN = ["neps.runtime.DefaultWorker.{run,_check_if_should_stop,_get_next_trial_from_state}", "neps.runtime._set_global_trial",
         "neps.state._eval.{evaluate_trial,_eval_trial,parse_user_result}", "neps.state.trial.Trial.*",
         "neps.state.neps_state.NePSState.*", "neps.state.filebased.*", "neps.state.protocols.*", "neps.utils.files.*"]
ASSUME = ["time passes only inside evaluations and inside the optimizer (an arbitrary amount each); storage operations take no time",
          "symbolic values cross the YAML/JSON files as opaque tokens (their textual form is not modelled)"]


class Clock:
    """Time that stands still unless the harness advances it."""

    def __init__(self):
        self.t = 1000.0

    def time(self): return self.t
    def monotonic(self): return self.t
    perf_counter = process_time = monotonic

    def sleep(self, s): return None

    def advance(self, d):
        self.t = self.t + d


def clock(ctx):
    c = Clock()
    prev = envshim.CLOCK
    envshim.CLOCK = c

    def undo():
        envshim.CLOCK = prev
    ctx.on_exit(undo)
    if not ctx.symbolic:
        import time
        for n in ("time", "monotonic", "perf_counter", "sleep"):
            old = getattr(time, n)
            setattr(time, n, getattr(c, n))
            ctx.on_exit(lambda n=n, old=old: setattr(time, n, old))
    return c


def scratch(ctx):
    d = tempfile.mkdtemp(prefix="symx_rt_", dir="/dev/shm")
    ctx.on_exit(lambda: shutil.rmtree(d, ignore_errors=True))
    return Path(d)


def budget(**kw):
    from neps.state.optimizer import BudgetInfo
    return BudgetInfo(**{**dict(max_cost_budget=None, used_cost_budget=0.0, max_evaluations=None, used_evaluations=0), **kw})


def state(root, info=None, **kw):
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import OptimizationState, OptimizerInfo
    return create_or_load_filebased_neps_state(
        Path(root) / "r", optimizer_info=OptimizerInfo(info or {"searcher": "stub"}),
        optimizer_state=OptimizationState(budget=budget(**kw), shared_state={}))


class Asker:
    """Optimizer stand-in: proposes {'x': n} with consecutive ids; optional hook on each ask."""

    def __init__(self, on_ask=None, first=1):
        self.on_ask = on_ask
        self.n = 0

    def ask(self, trials, budget_info=None, **kw):
        from neps.optimizers.base_optimizer import SampledConfig
        self.n += 1
        if self.on_ask:
            self.on_ask()
        ids = [int(t) for t in trials]
        return SampledConfig(id=str(max(ids, default=0) + 1), config={"x": self.n}, previous_config_id=None)


def defaults(**kw):
    from neps.state.settings import DefaultReportValues
    return DefaultReportValues(**{**dict(loss_value_on_error=None, cost_value_on_error=None, cost_if_not_provided=None,
                                         learning_curve_on_error=None, learning_curve_if_not_provided=None), **kw})


def settings(report=None, **kw):
    from neps.state.settings import OnErrorPossibilities, WorkerSettings
    d = dict(on_error=OnErrorPossibilities.IGNORE, default_report_values=report or defaults(),
             max_evaluations_total=None, include_in_progress_evaluations_towards_maximum=False, max_cost_total=None,
             max_evaluations_for_worker=None, max_evaluation_time_total_seconds=None,
             max_wallclock_time_for_worker_seconds=None, max_evaluation_time_for_worker_seconds=None,
             max_cost_for_worker=None)
    d.update(kw)
    return WorkerSettings(**d)


def worker(st, opt, fn, sett, wid="w"):
    from neps.runtime import DefaultWorker
    return DefaultWorker.new(state=st, optimizer=opt, settings=sett, evaluation_fn=fn, worker_id=wid)


def reset_globals(ctx):
    import neps.runtime as r
    r._CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None


def add_trial(st, tid, kind, cost=None, duration=None, worker="other", loss=1.0, config=None):
    """A trial another worker left in the given state."""
    from neps.state.trial import Trial
    t = Trial.new(trial_id=tid, config=config or {"x": 0}, location="", previous_trial=None, previous_trial_location=None,
                  time_sampled=float(int(tid)), worker_id=worker)
    st._trials.put_new(t)
    if kind == "pending":
        return t
    if kind == "submitted":
        t.set_submitted(time_submitted=5.0)
        st.put_updated_trial(t)
        return t
    t.set_evaluating(time_started=5.0, worker_id=worker)
    st.put_updated_trial(t)
    if kind == "evaluating":
        return t
    r = t.set_complete(report_as=kind, time_end=6.0, loss=loss if kind == "success" else None, cost=cost, learning_curve=None,
                       err=None if kind == "success" else RuntimeError("boom"), tb=None, extra={},
                       evaluation_duration=duration)
    st.report_trial_evaluation(t, r, worker_id=worker)
    return t
