"""C06: a worker stops when, and only when, one of its limits is reached."""
from symx.runner import H
from symx import core
from . import rt

LIMITS = ["max_evaluations_total", "max_cost_total", "max_evaluation_time_total_seconds", "max_evaluations_for_worker",
          "max_cost_for_worker", "max_evaluation_time_for_worker_seconds", "max_wallclock_time_for_worker_seconds"]


class Stop(BaseException):
    pass


def mk(limits, npre, nmax, name):
    def harness(ctx):
        rt.reset_globals(ctx)
        clk = rt.clock(ctx)
        root = rt.scratch(ctx)
        st = rt.state(root)
        pre = []
        for i in range(ctx.choice("n_existing", list(range(npre + 1)))):
            kind = ctx.choice("kind", ["success", "crashed", "evaluating", "submitted", "pending"])
            cost = dur = None
            if kind in ("success", "crashed"):
                if ctx.choice("has_cost", [True, False]):
                    cost = ctx.real("cost", 0, 10)
                if ctx.choice("has_duration", [True, False]):
                    dur = ctx.real("duration", 0, 10)
            rt.add_trial(st, str(i + 1), kind, cost, dur)
            pre.append((kind, cost, dur))
        sett, lim = {}, {}
        for x in limits:
            v = ctx.int(x, 0, nmax + npre) if "evaluations" in x else ctx.real(x, 0, 20)
            sett[x] = lim[x] = v
        incl = ctx.choice("include_in_progress", [False, True]) if "max_evaluations_total" in limits else False
        sett["include_in_progress_evaluations_towards_maximum"] = incl
        cost_err = ctx.real("cost_value_on_error", 0, 10) if ctx.choice("has_cost_on_error", [False, True]) else None
        cost_def = ctx.real("cost_if_not_provided", 0, 10) if ctx.choice("has_default_cost", [False, True]) else None
        report = rt.defaults(cost_value_on_error=cost_err, cost_if_not_provided=cost_def)

        led = dict(n=0, cost=0.0, dur=0.0, tot_n=sum(k in ("success", "crashed") for k, _, _ in pre),
                   tot_cost=sum([c for _, c, _ in pre if c is not None], 0.0),
                   tot_dur=sum([d for _, _, d in pre if d is not None], 0.0),
                   prog=sum(k in ("evaluating", "submitted") for k, _, _ in pre))
        t0 = clk.t
        ask_t = [None]

        def reached(now):
            """the limits that are reached by what has been done so far"""
            r = []
            for x, v in lim.items():
                cur = {"max_evaluations_total": led["tot_n"] + (led["prog"] if incl else 0), "max_cost_total": led["tot_cost"],
                       "max_evaluation_time_total_seconds": led["tot_dur"], "max_evaluations_for_worker": led["n"],
                       "max_cost_for_worker": led["cost"], "max_evaluation_time_for_worker_seconds": led["dur"],
                       "max_wallclock_time_for_worker_seconds": now - t0}[x]
                r.append((x, cur >= v))
            return r

        def must_not_be_reached(now, where):
            for x, c in reached(now):
                ctx.check(core.sym_not(c), f"{where}-although-{x}-reached")

        def on_ask():
            must_not_be_reached(clk.t, "sampled")
            ask_t[0] = clk.t
            clk.advance(ctx.real("dt_sample", 0, 10))

        def evaluate(x):
            must_not_be_reached(clk.t if ask_t[0] is None else ask_t[0], "evaluated")
            ask_t[0] = None
            if led["n"] >= nmax:
                raise Stop()
            d = ctx.real("dt_eval", 0, 10)
            clk.advance(d)
            k = ctx.choice("outcome", ["cost", "no-cost", "error"])
            c = {"cost": None, "no-cost": cost_def, "error": cost_err}[k]
            if k == "cost":
                c = ctx.real("eval_cost", 0, 10)
            for a, b in (("n", 1), ("tot_n", 1), ("dur", d), ("tot_dur", d)) + ((("cost", c), ("tot_cost", c)) if c is not None else ()):
                led[a] = led[a] + b
            if k == "error":
                raise RuntimeError("boom")
            return {"loss": 1.0, "cost": c} if k == "cost" else {"loss": 1.0}

        w = rt.worker(st, rt.Asker(on_ask), evaluate, rt.settings(report, **sett))
        try:
            w.run()
        except Stop:
            ctx.cover("beyond-bound")
            return
        anyc = False
        for x, c in reached(clk.t):
            anyc = core.sym_or(anyc, c)
        ctx.check(anyc, "stopped-although-no-limit-reached")
        ctx.cover("stopped")
    harness.__name__ = name
    return harness


def hs():
    r = []
    for x in LIMITS:
        r.append(H(mk([x], 1, 1, x), f"limit {x} alone, any value; one existing trial in any state (finished ones with or without cost and duration in "
                   "[0,10]); at most 1 further evaluation, each returning a cost, no cost or an error, any durations", rt.F_RUN,
                   covers=["stopped"], assumptions=rt.ASSUME))
    r.append(H(mk(["max_evaluations_total", "max_cost_total"], 1, 1, "total_pair"), "both limits of neps.run together", rt.F_RUN,
               covers=["stopped"], assumptions=rt.ASSUME))
    for x in LIMITS:
        r.append(H(mk([x], 0, 3 if x != "max_evaluations_total" else 2, x + "_own"),
                   f"limit {x} alone, no existing trial, at most 3 evaluations of this worker", rt.F_RUN, covers=["stopped"],
                   assumptions=rt.ASSUME))
    for x in LIMITS:
        r.append(H(mk([x], 2, 2, x + "_deep"), "two existing trials, two further evaluations", rt.F_RUN, covers=["stopped"],
                   assumptions=rt.ASSUME, thorough_only=True))
    return r


HARNESSES = hs()
