"""C02: workers starting and sampling together do not lose trials, collide or stop each other."""
from checks import wk
from symx import core
from symx.conc import Scenario as S


def j_start(J):
    J.check(J.a["exc"] is None, "worker-starts", J.a["exc"])
    wk.audit_ok(J)
    au = wk.A(J)
    if au.ok:
        J.check(au.trials == {} and au.cost == 0.0 and au.errs == (), "fresh-state", au.__dict__)


def j_sample(J):
    J.check(J.a["exc"] is None, "sampling-succeeds", J.a["exc"])
    wk.audit_ok(J)
    au = wk.A(J)
    a = J.a_marks("sampled")
    for m, ex in J.b_marks("sampled"):
        for n in a:
            J.check(core.implies(ex, m[1] != n[1]), "distinct-ids", (m, n))
        J.check(core.implies(ex, not au.ok or (m[1] in au.trials and au.trials[m[1]][3] == m[2])), "trial-stored", (m, au.trials))
    for n in a:
        J.check(not au.ok or (n[1] in au.trials and au.trials[n[1]][3] == n[2]), "trial-stored", (n, au.trials))


def j_run(J):
    wk.survives(J)
    wk.exclusive(J)
    wk.audit_ok(J)
    wk.recorded(J)
    au = wk.A(J)
    if au.ok:
        J.check(au.cost == 3.0, "cost-total", au.cost)
        J.check(all(t[4] is not None for t in au.trials.values()), "nothing-left-over", au.trials)


HARNESSES = [
    wk.fn([S("start", wk.empty, wk.start, wk.start, j_start, audit=wk.audit)], "start",
          "two workers open the same, not yet existing directory; all interleavings of their storage calls",
          covers=["start:judged", "start:A:opened"]),
    wk.fn([S("sample", wk.fresh, wk.sample, wk.sample, j_sample, audit=wk.audit, prelude=wk.opened)], "sample",
          "two workers sample one trial each at the same time; all interleavings", covers=["sample:A:sampled"]),
    wk.fn([S("run", wk.fresh, wk.run1, wk.run1, j_run, audit=wk.audit, prelude=wk.opened)], "run",
          "empty state, two workers each sample, claim, evaluate and report one trial; all interleavings",
          covers=["run:A:finished"]),
    wk.fn([S("startsample", wk.empty, wk.sample, wk.start, j_sample, audit=wk.audit)], "startsample",
          "one worker opens a not yet existing directory and samples while the other opens it", thorough_only=True),
    wk.fn([S("run12", wk.fresh, wk.run1, wk.run1_fail, lambda J: wk.survives(J), audit=wk.audit, prelude=wk.opened)], "runfail",
          "as run, one worker's evaluation raises (errors ignored)", thorough_only=True),
]
REPLAY = wk.replayer(HARNESSES)
