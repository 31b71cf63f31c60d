"""C04: a worker killed at any point leaves a directory the others can go on with."""
from checks import wk
from symx import core
from symx.conc import Scenario as S


def judge(J):
    wk.survives(J)
    wk.exclusive(J)
    wk.audit_ok(J)
    wk.recorded(J)


def j_start(J):
    J.check(J.a["exc"] is None, "worker-starts", J.a["exc"])


def j_resume(J):
    wk.survives(J)
    wk.audit_ok(J)
    wk.recorded(J)
    au = wk.A(J)
    if not au.ok:
        return
    # a result whose report call came back is still there, and no stored trial is half-written
    for m, ex in J.b_marks("reported2"):
        t = au.trials.get(m[1])
        J.check(core.implies(ex, t is not None and t[4] is not None and t[4][:2] == (2.5, 2.0)), "reported-result-kept",
                (m, au.trials))
    for t in au.trials.values():
        J.check(t[1] not in ("success", "failed", "crashed") or t[4] is not None, "finished-has-report", t)
        J.check(t[3] != "None", "config-readable", t)


def j_report(J):
    J.check(J.a["exc"] is None, "report-accepted", J.a["exc"])
    wk.audit_ok(J)
    au = wk.A(J)
    if au.ok:
        t = au.trials.get("1")
        J.check(t is not None and t[4] is not None and t[4][0] == 1.5, "report-stored", au.trials)
        for t in au.trials.values():
            J.check(t[1] not in ("success", "failed", "crashed") or t[4] is not None, "finished-has-report", t)
        J.check(au.cost in (1.0, 3.0), "cost-total", au.cost)


def run2_marked(root, who, state=None):
    from symx import conc
    st = wk.open_state(root)
    orig = st.report_trial_evaluation

    def rep(trial, report, *, worker_id):
        orig(trial, report, worker_id=worker_id)
        conc.mark("reported2", trial.id)
    st.report_trial_evaluation = rep
    wk.worker(root, who, st, max_evaluations_for_worker=2)


HARNESSES = [
    wk.fn([S("resume", wk.empty, wk.run1, run2_marked, j_resume, audit=wk.audit, crash=True, after=True)], "resume",
          "a worker runs two evaluations on a new directory and is killed at any storage call; then another worker starts",
          covers=["resume:A:finished"]),
    wk.fn([S("startcrash", wk.empty, wk.start, wk.start, j_start, crash=True)], "startcrash",
          "two workers open a not yet existing directory, one of them is killed at any storage call",
          covers=["startcrash:A:opened"]),
    wk.fn([S("runcrash", wk.pending, wk.run1, wk.run1, judge, audit=wk.audit, crash=True, prelude=wk.opened)], "runcrash",
          "one pending trial, two workers, one of them killed at any storage call", covers=["runcrash:A:finished"]),
    wk.fn([S("reportcrash", wk.evaluating2, wk.report, wk.report, j_report, audit=wk.audit, crash=True, prelude=wk.opened)],
          "reportcrash", "two workers report, one of them is killed at any storage call", functions=wk.F_STATE,
          covers=["reportcrash:A:reported"]),
    wk.fn([S("freshcrash", wk.fresh, wk.run1, wk.run1, judge, audit=wk.audit, crash=True, prelude=wk.opened)], "freshcrash",
          "empty state, two workers each sample, evaluate and report, one of them killed at any storage call",
          thorough_only=True, covers=["freshcrash:A:finished"]),
]
REPLAY = wk.replayer(HARNESSES)
