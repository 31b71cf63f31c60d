"""C03: updates by different workers are never lost or overwritten with stale data."""
from checks import wk
from symx import core
from symx.conc import Scenario as S


def j_report(J):
    J.check(J.a["exc"] is None, "report-accepted", J.a["exc"])
    wk.audit_ok(J)
    au = wk.A(J)
    if not au.ok or J.crashed:
        return
    J.check(au.cost == 3.0, "cost-total", au.cost)
    for i, w, l in (("1", "worker-A", 1.5), ("2", "worker-B", 2.5)):
        t = au.trials.get(i)
        J.check(t is not None and t[4] is not None and t[4][0] == l and t[2] == w, "report-stored", au.trials)


def j_err(J):
    j_report(J)
    au = wk.A(J)
    if au.ok:
        J.check(au.errs == (("1", "worker-A"), ("2", "worker-B")), "every-error-kept", au.errs)


def j_stale(J):
    J.check(J.a["exc"] is None, "claim-without-error", J.a["exc"])
    won, b = J.a_marks("won"), J.b_marks("won")
    for m, ex in b:
        J.check(core.implies(ex, not won), "stale-write-rejected", (won, m))
    au = wk.A(J)
    if au.ok and won:
        J.check(au.trials["1"][2] == "worker-A", "winner-stored", au.trials)
    for m, ex in b:
        J.check(core.implies(ex, not au.ok or au.trials["1"][2] == "worker-B"), "winner-stored", au.trials)


def report_A_sample_B(J):
    J.check(J.a["exc"] is None, "no-error", J.a["exc"])
    au = wk.A(J)
    if au.ok and not J.crashed:
        rep = [m for m, _ in J.b_marks("reported")] + J.a_marks("reported")
        cost = sum(wk.RESULT["A" if m[1] == "1" else "B"]["cost"] for m in rep)
        J.check(au.cost == cost, "cost-total", au.cost)
        J.check(len(au.trials) == 3, "sampled-trial-kept", au.trials)


HARNESSES = [
    wk.fn([S("report", wk.evaluating2, wk.report, wk.report, j_report, audit=wk.audit, prelude=wk.opened)], "report",
          "two workers report their (different) trials at the same time; all interleavings",
          functions=wk.F_STATE, covers=["report:A:reported"]),
    wk.fn([S("errors", wk.evaluating2, wk.report_err, wk.report_err, j_err, audit=wk.audit, prelude=wk.opened)], "errors",
          "two workers report failed trials at the same time; all interleavings", functions=wk.F_STATE,
          covers=["errors:A:reported"]),
    wk.fn([S("stale", wk.pending, wk.claim, wk.claim, j_stale, audit=wk.audit, prelude=wk.opened)], "stale",
          "two workers store changes to the same version of a trial; all interleavings", functions=wk.F_STATE,
          covers=["stale:A:won", "stale:A:lost"]),
    wk.fn([S("reportsample", wk.evaluating2, wk.report, wk.sample, report_A_sample_B, audit=wk.audit, prelude=wk.opened)],
          "reportsample", "one worker reports while the other samples; all interleavings",
          covers=["reportsample:A:reported", "reportsample:A:sampled"]),
]
REPLAY = wk.replayer(HARNESSES)
