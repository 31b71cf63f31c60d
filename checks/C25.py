"""C25: status and summary files report the run as it is."""
import contextlib
import importlib
import io
import itertools

from symx.runner import H
from symx import core
from . import mf, rt

ST = ["neps.status.status.*", "neps.state.trial.{Report,Trial}.*", "neps.utils.types._ConfigResultForStats.*"]


def mod():
    return importlib.import_module("neps.status.status")


class State:
    def __init__(self, trials):
        self.trials = trials

    def get_all_trials(self):
        return self.trials


def history(ctx, n, with_error_loss=True):
    from neps.state.trial import Trial
    out, info = {}, []
    for i in range(n):
        st = ctx.choice(f"state{i}", ["done", "error", "pending", "evaluating"] + (["error-with-loss"] if with_error_loss else []))
        cfg = {"x": ctx.real(f"x{i}", 0, 1), "c": ctx.choice(f"c{i}", ["a", "b"]) if i == 0 else "b"}
        tid = f"{i}_0" if i else "0"
        loss = ctx.real(f"loss{i}", -100, 100) if st == "done" else {"error": None, "error-with-loss": None}.get(st, st)
        t = mf.trial(tid, cfg, loss, cost=ctx.real(f"cost{i}", 0, 9) if st == "done" and i != 1 else None)
        if st == "done" and i == 0:
            t.report.extra["info_dict"] = {"acc": ctx.real("acc", 0, 1)}
        if st == "error-with-loss":
            t.report.loss = ctx.real(f"loss{i}", -1000, 1000)
        out[tid] = t
        info.append((tid, cfg, st, t))
    return out, info


def install(ctx, ts):
    m = mod()
    old = m.load_filebased_neps_state
    ctx.on_exit(lambda: setattr(m, "load_filebased_neps_state", old))
    m.load_filebased_neps_state = lambda root: State(ts)
    return m


def best(ctx, info, loss, tid, what):
    """loss and id are those of a best successful evaluation"""
    done = [x for x in info if x[2] == "done"]
    if not done:
        ctx.check(nothing(tid) and loss == float("inf"), what, (tid, loss))
        ctx.cover("nothing-succeeded")
        return None
    me = [x for x in done if x[0] == tid]
    ctx.check(len(me) == 1, what, tid)
    ctx.check(ctx.eq(loss, me[0][3].report.loss), what, loss)
    ctx.check(core.sym_and(*[ctx.le(loss, x[3].report.loss) for x in done]), what + "-is-least", loss)
    ctx.cover("best")
    return me[0]


def counts(ctx, s, info):
    n = {k: sum(x[2] == k or x[2].startswith(k + "-") for x in info) for k in ("done", "error", "pending", "evaluating")}
    ctx.check(s["num_evaluated_configs"] == n["done"] + n["error"], "evaluated", s["num_evaluated_configs"])
    ctx.check(s["num_pending_configs"] == n["pending"] + n["evaluating"], "pending", s["num_pending_configs"])
    ctx.check(s["num_pending_configs_with_worker"] == n["evaluating"], "pending-with-worker", s["num_pending_configs_with_worker"])
    ctx.check(s["num_error"] == n["error"], "errors", s["num_error"])


def summary(ctx):
    """the counts, the best evaluation, and every evaluation as it was reported"""
    ctx.messages_as_tokens()
    n = ctx.choice("trials", [0, 1, 2, 3])
    ts, info = history(ctx, n)
    m = install(ctx, ts)
    s = m.get_summary_dict("/nowhere", add_details=True)
    counts(ctx, s, info)
    b = best(ctx, info, s["best_loss"], s["best_config_id"], "best")
    if b:
        ctx.check(s["best_config"] == b[1] or all(ctx.eq(s["best_config"][k], b[1][k]) if k == "x" else s["best_config"][k] == b[1][k] for k in b[1]), "best-config", s["best_config"])
        ctx.check(s["best_config_metadata"]["id"] == b[0], "best-metadata")
    else:
        ctx.check(s["best_config"] is None, "no-best-config")
    buf = io.StringIO()
    printed = ctx.choice("printed", [False, True])
    with contextlib.redirect_stdout(buf):
        prev, pend = m.status("/nowhere", print_summary=printed)
    said = [int(x.rsplit(":", 1)[1]) for x in buf.getvalue().splitlines() if x.startswith("#")]
    ctx.check(said == ([s["num_evaluated_configs"], s["num_pending_configs"], s["num_pending_configs_with_worker"], s["num_error"]] if printed else []), "printed", buf.getvalue())
    for got in (prev, s["previous_results"]):
        ctx.check(list(got) == [x[0] for x in info if x[2] in ("done", "error", "error-with-loss")], "results", list(got))
    ctx.check(set(pend) == {x[0] for x in info if x[2] in ("pending", "evaluating")} == set(s["pending_configs"]), "pending-configs", list(pend))
    ctx.check(set(s["pending_configs_free"]) == {x[0] for x in info if x[2] == "pending"}, "free")
    for tid, cfg, st, t in info:
        if tid in pend:
            ctx.check(set(pend[tid]) == set(cfg) and ctx.eq(pend[tid]["x"], cfg["x"]) and pend[tid]["c"] == cfg["c"], "pending-config", tid)
            continue
        r = prev[tid]
        ctx.check(r.id == tid and ctx.eq(r.config["x"], cfg["x"]) and r.config["c"] == cfg["c"], "result-config", tid)
        ctx.check(r.metadata["id"] == tid and r.metadata["time_sampled"] == 1.0, "result-metadata", tid)
        if st == "done":
            ctx.check(ctx.eq(r.result["loss"], t.report.loss) and ctx.eq(r.loss, t.report.loss), "result-loss", tid)
            ctx.check(r.result["cost"] is None if t.report.cost is None else ctx.eq(r.result["cost"], t.report.cost), "result-cost", tid)
            if "acc" in t.report.extra.get("info_dict", {}):
                ctx.check(ctx.eq(r.result["info_dict"]["acc"], t.report.extra["info_dict"]["acc"]), "result-extra", tid)
        else:
            ctx.check(r.result == "error" and r.loss == "error", "result-error", tid)


class Files:
    """the CSV files, kept as the frames that were written"""

    def __init__(self, ctx):
        import pandas as pd
        self.f = {}
        if not ctx.symbolic:
            return
        o1, o2 = pd.DataFrame.to_csv, pd.read_csv

        def undo():
            pd.DataFrame.to_csv, pd.read_csv = o1, o2
        ctx.on_exit(undo)

        def to_csv(df, path, index=True, mode="w", **k):
            ctx.check(mode == "w", "csv-mode", mode)
            with open(path, "w") as fh:
                fh.write("csv")
            df = df.copy()
            self.f[str(path)] = df.reset_index() if index else df.reset_index(drop=True)

        def read_csv(path, **k):
            return self.f[str(path)].copy()
        pd.DataFrame.to_csv, pd.read_csv = to_csv, read_csv

    def read(self, path):
        import pandas as pd
        if str(path) in self.f:
            return self.f[str(path)]
        return pd.read_csv(path, dtype={"config_id": str})


def nothing(v):
    return v is None or (not core.is_sym(v) and isinstance(v, float) and v != v)


def close(ctx, a, b):
    """through the text of a number"""
    return ctx.near(a, b, 1e-9) if core.is_sym(a) or core.is_sym(b) else abs(float(a) - float(b)) <= 1e-6


def table(ctx):
    """one row per configuration, best first, all that was reported in its columns"""
    ctx.messages_as_tokens()
    n = ctx.choice("trials", [0, 1, 2, 3] if ctx.tier != "quick" else [0, 1, 2])
    ts, info = history(ctx, n, with_error_loss=ctx.tier != "quick")
    m = install(ctx, ts)
    root = rt.scratch(ctx)
    fs = Files(ctx)
    p1, p2 = m.post_run_csv(root)
    ctx.check(str(p1) == str(root.resolve() / "summary_csv" / "config_data.csv") and str(p2) == str(root.resolve() / "summary_csv" / "run_status.csv"), "files", (p1, p2))
    d, r = fs.read(p1), fs.read(p2)
    run = dict(zip(r["description"], r["value"]))
    if not ctx.symbolic:
        bid = run["best_config_id"]
        # the text of the file
        run = {k: (float(v) if k != "best_config_id" else v) for k, v in run.items()}
        done = [x for x in info if x[2] == "done"]
        run["best_config_id"] = None if nothing(bid) else next((x[0] for x in info if x[0] == str(bid) or (x[0] == "0" and not str(bid).count("_") and float(bid) == 0)), bid)
    counts(ctx, run, info)
    b = best(ctx, info, run["best_loss"], run["best_config_id"], "best") if ctx.symbolic or n == 0 else None
    if n == 0:
        ctx.check(len(d) == 0, "no-rows", len(d))
        return
    ctx.check(sorted(map(str, d["config_id"])) == sorted(ts), "rows", list(d["config_id"]))
    rows = [dict(row) for _, row in d.iterrows()]
    losses = []
    for row in rows:
        tid, cfg, st, t = next(x for x in info if x[0] == str(row["config_id"]))
        ctx.check(row["status"] == ("pending" if st in ("pending", "evaluating") else "complete"), "status", row["status"])
        ctx.check(close(ctx, row["config.x"], cfg["x"]) and row["config.c"] == cfg["c"], "config", tid)
        if st == "done":
            ctx.check(close(ctx, row["result.loss"], t.report.loss), "loss", tid)
            ctx.check(nothing(row.get("result.cost")) if t.report.cost is None else close(ctx, row["result.cost"], t.report.cost), "cost", tid)
            if tid == "0":
                ctx.check(close(ctx, row["result.info_dict.acc"], t.report.extra["info_dict"]["acc"]), "extra", tid)
            losses.append(t.report.loss)
            ctx.check(row["metadata.id"] in (tid, 0) or str(row["metadata.id"]) == tid, "metadata", row["metadata.id"])
        else:
            ctx.check(nothing(row["result.loss"]), "no-loss", row["result.loss"])
            losses.append(None)
    k = sum(x is not None for x in losses)
    ctx.check(all(x is not None for x in losses[:k]), "evaluated-first", losses)
    ctx.check(core.sym_and(*[ctx.le(a, c) for a, c in zip(losses[:k], losses[1:k])]), "best-first", losses)
    ctx.cover("rows")


def saves(ctx):
    """summaries taken by different workers, saved in any order: the newest is what remains, in both files"""
    import pandas as pd
    ctx.messages_as_tokens()
    m = mod()
    root = rt.scratch(ctx)
    fs = Files(ctx)
    n = ctx.choice("saves", [1, 2, 3])
    snaps = []
    for i in range(n):
        ev, pend, wk = ctx.int(f"evaluated{i}", 0, 9), ctx.int(f"pending{i}", 0, 3), ctx.int(f"with-worker{i}", 0, 3)
        ctx.assume(wk <= pend)
        snaps.append((ev, pend, wk))
    # all are of one run: what was evaluated stays evaluated
    c1, c2, lock = m._initiate_summary_csv(root)
    order = list(range(n))
    for i in order:
        ev, pend, wk = snaps[i]
        df = pd.DataFrame({"config_id": ["a", "b"], "result.loss": [2.0 + i, 1.0 + i]})
        rd = pd.DataFrame.from_dict({"num_evaluated_configs": ev, "num_pending_configs": pend, "num_pending_configs_with_worker": wk, "best_loss": 1.0 + i, "best_config_id": "b", "num_error": 0},
                                    orient="index", columns=["value"])
        rd.index.name = "description"
        m._save_data_to_csv(c1, c2, lock, df, rd)
    d, r = fs.read(c1), fs.read(c2)
    run = dict(zip(r["description"], r["value"]))
    i = int(float(run["best_loss"]) - 1)
    ctx.check(list(map(float, d["result.loss"])) == [1.0 + i, 2.0 + i], "files-agree", list(d["result.loss"]))
    ev = snaps[i][0]
    for j, (e, p, w) in enumerate(snaps):
        ctx.check(ctx.le(e, ev), "newest-remains", (i, j))
        # as many evaluated: a later summary with nothing left to do replaces one taken before
        if j > i:
            ctx.check(core.sym_not(core.sym_and(e == ev, p == 0)), "finished-remains", (i, j))
    ctx.cover(f"saved-{i}")


A = ["the trials are handed over as read from the directory (reading: C09)", "pandas' CSV text is not modelled: a file is the frame written to it"]
HARNESSES = [
    H(summary, "up to three trials in every state with any losses, costs and results", ST, assumptions=A, covers=["best", "nothing-succeeded"]),
    H(table, "up to two (thorough: three) trials in every state", ST, assumptions=A, covers=["rows", "best", "nothing-succeeded"]),
    H(saves, "up to three summaries with any counts, saved one after the other", ST, assumptions=A, covers=["saved-0", "saved-1", "saved-2"]),
]
