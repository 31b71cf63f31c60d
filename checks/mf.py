"""Symbolic histories of multi-fidelity runs and what successive halving has to do with them."""
from __future__ import annotations

from symx import core, rngstub


def space(lo=1, hi=4, prior=False, kind="int"):
    from neps.search_spaces import SearchSpace, FloatParameter, IntegerParameter, CategoricalParameter
    F = IntegerParameter if kind == "int" else FloatParameter
    return SearchSpace(x=FloatParameter(0.0, 1.0, **(dict(default=0.5, default_confidence="medium") if prior else {})), e=F(lo, hi, is_fidelity=True))


class Cfg:
    """a configuration of the history: highest rung it was started at, pending there or not, loss per rung (None: error)"""

    def __init__(self, rung, base, pending, losses, x):
        self.rung, self.base, self.pending, self.losses, self.x = rung, base, pending, losses, x


def trial(tid, config, loss="pending", prev=None, cost=None, worker="w"):
    from neps.state.trial import Trial
    t = Trial.new(trial_id=tid, config=config, location="", previous_trial=prev, previous_trial_location=None, time_sampled=1.0, worker_id=worker)
    if isinstance(loss, str):
        if loss == "evaluating":
            t.set_evaluating(time_started=2.0, worker_id=worker)
        return t
    t.set_evaluating(time_started=2.0, worker_id=worker)
    t.report = t.set_complete(report_as="crashed" if loss is None else "success", time_end=3.0, loss=loss, cost=cost, learning_curve=None,
                              err=None if loss is not None else RuntimeError("boom"), tb=None, extra={}, evaluation_duration=1.0)
    return t


def trials(ctx, cfgs, fids, reverse=False):
    """the history as trials, in the order of sampling"""
    out = []
    for i, c in enumerate(cfgs):
        for r in range(c.base, c.rung + 1):
            top = r == c.rung
            cfg = {"x": c.x, "e": fids[r]}
            out.append((r, i, trial(f"{i}_{r}", cfg, "pending" if top and c.pending else c.losses[r], prev=f"{i}_{r - 1}" if r > c.base else None)))
    if reverse:
        out = out[::-1]
    return {t.id: t for _, _, t in out}


def loss(ctx, name):
    return ctx.real(name, -100, 100)


def value(c, r):
    return float("inf") if c.losses[r] is None else c.losses[r]


def better(ctx, a, b):
    """loss a is at most loss b (an error is the worst)"""
    if a is None:
        return b is None
    if b is None:
        return True
    return ctx.le(a, b)


def best_of(ctx, c, r, members):
    return core.sym_and(*[better(ctx, c.losses[r], o.losses[r]) for o in members])


def check_new(ctx, s, cfgs, rung, fids, known):
    ctx.check(s.previous_config_id is None, "new-has-no-predecessor", s.previous_config_id)
    ctx.check(s.id == f"{len(cfgs)}_{rung}", "new-id", s.id)
    common(ctx, s, rung, fids, known)


def common(ctx, s, rung, fids, known):
    ctx.check(s.id not in known, "fresh-id", s.id)
    ctx.check(set(s.config) == {"x", "e"}, "parameters")
    ctx.check(s.config["e"] == fids[rung] and type(s.config["e"]) is type(fids[rung]), "fidelity-of-the-rung", s.config["e"])
    x = s.config["x"]
    ctx.check(core.sym_and(ctx.le(0.0, x), ctx.le(x, 1.0)), "legal", x)


def check_promotion(ctx, s, c, i, r, fids, known):
    ctx.check(s.id == f"{i}_{r + 1}" and s.previous_config_id == f"{i}_{r}", "promotion-ids", (s.id, s.previous_config_id))
    ctx.check(ctx.eq(s.config["x"], c.x), "same-configuration", s.config["x"])
    common(ctx, s, r + 1, fids, known)
