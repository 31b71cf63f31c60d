"""C01: a trial is evaluated by at most one worker."""
from checks import wk
from symx.conc import Scenario as S


def judge(J):
    wk.exclusive(J)
    wk.survives(J)


def judge_claim(J):
    from symx import core
    J.check(J.a["exc"] is None, "claim-without-error", J.a["exc"])
    won = [m for m in J.a_marks("won")]
    b = J.b_marks("won")
    for m, ex in b:
        J.check(core.implies(ex, not won), "one-winner", (won, m))
    if not J.crashed:
        J.check(bool(won) or bool(b), "some-winner", J.a["marks"])
    au = wk.A(J)
    if au.ok and won:
        J.check(au.trials["1"][2] == "worker-A" and au.trials["1"][1] == "evaluating", "winner-stored", au.trials)


HARNESSES = [
    wk.fn([S("claim", wk.pending, wk.claim, wk.claim, judge_claim, audit=wk.audit, prelude=wk.opened)], "claim",
          "two workers read the same pending trial and store it as theirs; all interleavings of their storage calls",
          covers=["claim:judged", "claim:A:won", "claim:A:lost"]),
    wk.fn([S("pending1", wk.pending, wk.run1, wk.run1, judge, prelude=wk.opened)], "pending1",
          "one pending trial, two workers with the state open, each evaluates one trial; all interleavings",
          covers=["pending1:judged"]),
    wk.fn([S("pending2", wk.pending2, wk.run1, wk.run1, judge, prelude=wk.opened)], "pending2",
          "two pending trials, two workers, each evaluates one trial; all interleavings",
          thorough_only=True, covers=["pending2:judged"]),
    wk.fn([S("crash", wk.pending, wk.run1, wk.run1, judge, prelude=wk.opened, crash=True)], "crash",
          "one pending trial, two workers, one of them killed at any storage call", thorough_only=True,
          covers=["crash:judged"]),
]
REPLAY = wk.replayer(HARNESSES)
