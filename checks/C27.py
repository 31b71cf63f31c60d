"""C27: the command line and the incumbent plots report what is recorded."""
import argparse
import contextlib
import importlib
import io
import types

from symx.runner import H
from symx import core
from . import mf, rt
from . import C25

CLI = ["neps.utils.cli.{status,results,info_config,load_neps_errors,format_duration,convert_timestamp,compute_duration}", "neps.status.status.get_summary_dict"]


def cli():
    return importlib.import_module("neps.utils.cli")


def capture(fn, *a):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn(*a)
    return buf.getvalue().splitlines()


def num(ctx, txt):
    """the number printed (six decimals at least)"""
    txt = txt.strip()
    return ctx.e.tokens[txt] if ctx.symbolic and txt in ctx.e.tokens else float(txt)


def same(ctx, a, b):
    return ctx.near(a, b, 1e-6) if core.is_sym(a) or core.is_sym(b) else abs(a - b) <= 1e-6 * (1 + abs(b))


def field(lines, name, at=0):
    got = [x.split(":", 1)[1].strip() for x in lines if x.strip().startswith(name + ":")]
    return got[at] if len(got) > at else None


class Stamp:
    def __init__(self, v):
        self.v = v

    def strftime(self, f):
        return f"t{self.v}"

    def timestamp(self):
        return self.v


def times(ctx, m):
    """dates and durations are printed as the number of seconds they stand for"""
    for k, v in dict(datetime=types.SimpleNamespace(fromtimestamp=lambda t: Stamp(t + 0), now=lambda: Stamp(1000)), timedelta=lambda seconds: f"d{seconds + 0}").items():
        old = getattr(m, k)
        setattr(m, k, v)
        ctx.on_exit(lambda k=k, old=old: setattr(m, k, old))


class State:
    def __init__(self, trials, errs=()):
        self.trials, self.errs = trials, errs

    def get_all_trials(self):
        return dict(self.trials)

    def get_trial_by_id(self, tid):
        from neps.exceptions import TrialNotFoundError
        if tid not in self.trials:
            raise TrialNotFoundError(tid)
        return self.trials[tid]

    def get_errors(self):
        from neps.state.err_dump import ErrDump
        return ErrDump(list(self.errs))

    def optimizer_info(self):
        from neps.state.optimizer import OptimizerInfo
        return OptimizerInfo({"searcher_name": "nm", "searcher_alg": "alg", "searcher_args": {"eta": 3}})


def install(ctx, ts, errs=()):
    m = cli()
    for mod in (m, importlib.import_module("neps.status.status")):
        old = mod.load_filebased_neps_state
        ctx.on_exit(lambda mod=mod, old=old: setattr(mod, "load_filebased_neps_state", old))
        mod.load_filebased_neps_state = lambda root: State(ts, errs)
    times(ctx, m)
    return m


def history(ctx, n, names=None, kinds=("done", "error", "pending", "evaluating"), stamps=False):
    out, info = {}, []
    names = names or [str(i + 1) for i in range(n)]
    for i in range(n):
        st = ctx.choice(f"state{i}", list(kinds))
        loss = ctx.real(f"loss{i}", -100, 100) if st == "done" else st
        t = mf.trial(names[i], {"x": ctx.real(f"x{i}", 0, 1), "c": "a"}, loss if st != "error" else None)
        t.metadata.sampling_worker_id = f"w{i}"
        if stamps:
            t.metadata.time_sampled = ctx.int(f"sampled{i}", 1, 99)
        if st in ("done", "error"):
            t.metadata.evaluation_duration = 5 + i
        out[names[i]] = t
        info.append((names[i], st, t))
    return out, info


def args(root, **kw):
    return argparse.Namespace(**{**dict(root_directory=str(root), pending=False, evaluating=False, succeeded=False, plot=False, id=None), **kw})


STATE = {"done": "SUCCESS", "error": "CRASHED", "pending": "PENDING", "evaluating": "EVALUATING"}


def status(ctx):
    """counts, the latest trials with their state and loss, the best one"""
    ctx.messages_as_tokens()
    many = ctx.choice("many", [False, True])
    n = ctx.choice("trials", [0, 1, 2, 3] if ctx.tier != "quick" else [0, 1, 2]) if not many else 9
    ts, info = history(ctx, n, stamps=not many, kinds=("done",) if many else ("done", "error", "pending", "evaluating"))
    if many:
        order = [3, 7, 1, 5, 9, 2, 8, 4, 6]
        for k, t in zip(order, ts.values()):
            t.metadata.time_sampled = k
        for a, b in zip(info, info[1:]):
            ctx.assume(a[2].report.loss < b[2].report.loss)
    root = rt.scratch(ctx)
    m = install(ctx, ts)
    flt = ctx.choice("only", [None, "pending", "evaluating", "succeeded"])
    out = capture(m.status, args(root, **({flt: True} if flt else {})))
    c = {k: sum(x[1] == k for x in info) for k in STATE}
    for name, want in (("Succeeded Trials", c["done"]), ("Failed Trials (Errors)", c["error"]), ("Active Trials", c["evaluating"]),
                       ("Pending Trials", c["pending"] + c["evaluating"]), ("Pending Trials with Worker", c["evaluating"])):
        ctx.check(field(out, name) == str(want), "count", (name, field(out, name), want))
    ctx.check(field(out, "Optimizer") == "alg", "optimizer")
    done = [x for x in info if x[1] == "done"]
    best = field(out, "Best Loss Achieved")
    if done:
        b = num(ctx, best)
        ctx.check(core.sym_and(*[ctx.le(b, x[2].report.loss) for x in done]), "best-is-least", best)
        ctx.check(any(bool(ctx.eq(b, x[2].report.loss)) for x in done) if ctx.symbolic else any(abs(b - float(x[2].report.loss)) < 1e-6 for x in done), "best-is-one", best)
    head = next(i for i, x in enumerate(out) if x.startswith("Sampled Time"))
    rows = []
    for x in out[head + 1:]:
        p = x.split()
        if len(p) != 6:
            break
        rows.append(p)
    ids = [p[2] for p in rows]
    want = {None: ["done", "error", "pending", "evaluating"], "pending": ["pending"], "evaluating": ["evaluating"], "succeeded": ["done"]}[flt]
    exp = [x[0] for x in info if x[1] in want]
    if flt is None and len(exp) > 7:
        ctx.check(len(ids) == 7 == len(set(ids)) and set(ids) <= set(exp), "seven", ids)
        late = max(float(ts[i].metadata.time_sampled) for i in exp if i not in ids)
        ctx.check(all(float(ts[i].metadata.time_sampled) > late for i in ids), "latest", ids)
        ctx.cover("seven")
    else:
        ctx.check(sorted(ids) == sorted(exp), "rows", (ids, exp))
        if ids:
            ctx.cover("rows")
    ctx.check(core.sym_and(*[ctx.le(ts[b].metadata.time_sampled, ts[a].metadata.time_sampled) for a, b in zip(ids, ids[1:])]), "latest-first", ids)
    for p in rows:
        t, st = ts[p[2]], next(x[1] for x in info if x[0] == p[2])
        ctx.check(p[4] == STATE[st], "state", p)
        ctx.check(p[3] == t.metadata.sampling_worker_id, "worker", p)
        ctx.check(same(ctx, num(ctx, p[5]), t.report.loss) if st == "done" else p[5] == "N/A", "loss", p)
        ctx.check(same(ctx, num(ctx, p[0][1:]), t.metadata.time_sampled), "sampled", p)
        d = num(ctx, p[1][1:])
        ctx.check(same(ctx, d, t.metadata.evaluation_duration if st in ("done", "error") else 1000 - t.metadata.time_sampled), "duration", p)
    if flt is None and done:
        bid = field(out, "ID")
        b = [x for x in done if x[0] == bid]
        ctx.check(len(b) == 1 and core.sym_and(*[ctx.le(b[0][2].report.loss, x[2].report.loss) for x in done]), "best-id", bid)
        ctx.check(same(ctx, num(ctx, field(out, "x")), b[0][2].config["x"]), "best-config", field(out, "x"))
        ctx.cover("best")


def results(ctx):
    """every configuration that was the best when it was evaluated, the newest first"""
    ctx.messages_as_tokens()
    n = ctx.choice("trials", [0, 1, 2, 3])
    names = ctx.choice("ids", ["plain", "rungs"])
    names = ["1", "2", "10"][:n] if names == "plain" else ["0_0", "2_0", "10_0"][:n]
    ts, info = history(ctx, n, names)
    # as read from a directory: any order
    order = ctx.choice("read-order", [0, 1])
    ts = dict(reversed(list(ts.items()))) if order else ts
    root = rt.scratch(ctx)
    m = install(ctx, ts)
    out = capture(m.results, args(root))
    head = next(i for i, x in enumerate(out) if x.startswith("ID"))
    rows = [x.split() for x in out[head + 2:]]
    exp, best = [], None
    for tid, st, t in info:
        if st == "done" and (best is None or bool(t.report.loss < best)):
            best = t.report.loss
            exp.append(tid)
    if not exp:
        ctx.check(len(rows) == 1 and rows[0][0] not in ts, "none", rows)
        ctx.cover("none")
        return
    ctx.check([r[0] for r in rows] == exp[::-1], "incumbents", ([r[0] for r in rows], exp))
    for r in rows:
        ctx.check(same(ctx, num(ctx, r[1]), ts[r[0]].report.loss), "loss", r)
        ctx.check(same(ctx, num(ctx, r[3].rstrip(",")), ts[r[0]].config["x"]), "config", r)
    ctx.cover("incumbents")


def one(ctx):
    """a trial in any state"""
    ctx.messages_as_tokens()
    ts, info = history(ctx, 2, ["1", "2"] if ctx.choice("ids", ["plain", "rungs"]) == "plain" else ["0_0", "0_1"])
    root = rt.scratch(ctx)
    m = install(ctx, ts)
    i = ctx.choice("asked", [0, 1, None])
    if i is None:
        out = capture(m.info_config, args(root, id="99"))
        ctx.check(len(out) == 1 and "99" in out[0], "unknown", out)
        ctx.cover("unknown")
        return
    tid, st, t = info[i]
    for k in ("time_started", "time_end"):
        if st in ("done", "error"):
            setattr(t.metadata, k, ctx.int(k, 0, 99))
    out = capture(m.info_config, args(root, id=tid))
    ctx.check(field(out, "Trial ID") == tid and STATE[st] in str(field(out, "State")).upper(), "trial", out)
    ctx.check(same(ctx, num(ctx, field(out, "x")), t.config["x"]) and field(out, "c") == "a", "config", out)
    ctx.check(field(out, "Sampling Worker ID") == t.metadata.sampling_worker_id, "worker")
    if st in ("done", "error"):
        ctx.check(same(ctx, num(ctx, field(out, "Time Started")[1:]), t.metadata.time_started) and same(ctx, num(ctx, field(out, "Time End")[1:]), t.metadata.time_end), "times", out)
        ctx.check(num(ctx, field(out, "Evaluation Duration")[1:]) == t.metadata.evaluation_duration, "duration", out)
        ctx.check(same(ctx, num(ctx, field(out, "Loss")), t.report.loss) if st == "done" else field(out, "Loss") == "None", "loss", out)
        ctx.cover("reported")
    else:
        ctx.check(field(out, "Loss") is None, "no-report", out)
        ctx.cover("unreported")


def errors(ctx):
    from neps.state.err_dump import ErrDump
    n = ctx.choice("errors", [0, 1, 2, 3])
    ks = [ctx.choice(f"kind{i}", ["ValueError", "OSError"]) for i in range(n)]
    errs = [ErrDump.SerializableTrialError(str(i + 1), f"w{i}", k, f"msg{i}", f"tb{i}") for i, k in enumerate(ks)]
    root = rt.scratch(ctx)
    m = install(ctx, {}, errs)
    out = capture(m.load_neps_errors, args(root))
    for i, e in enumerate(errs):
        ctx.check(field(out, "Error in Trial ID", i) == e.trial_id and field(out, "Worker ID", i) == e.worker_id and field(out, "Error Type", i) == e.err_type
                  and field(out, "Error Message", i) == e.err and e.tb in out, "error", out)
    ctx.check(field(out, "Error in Trial ID", n) is None, "no-others", out)
    ctx.cover("errors" if n else "no-errors")


def trace(ctx):
    """the incumbent trace of a run: after every evaluation the best loss so far, at the cost of that evaluation"""
    ctx.messages_as_tokens()
    m = importlib.import_module("neps.plot.read_results")
    n = ctx.choice("trials", [1, 2, 3])
    names = {"plain": ["1", "2", "10"], "rungs": ["0_0", "0_1", "1_0"]}[ctx.choice("ids", ["plain", "rungs"])][:n]
    ts, info = history(ctx, n, names, kinds=("done",))
    key = ctx.choice("key", [None, "fidelity", "seconds"])
    cont = ctx.choice("continuations", [False, True])
    cost = []
    for i, (tid, st, t) in enumerate(info):
        v = ctx.real(f"at{i}", 0, 9)
        t.report.extra["info_dict"] = {"fidelity": v, "seconds": v}
        cost.append(v if key else 1)
        if tid == "0_1" and cont:
            t.metadata.previous_trial_id = "0_0"
    install(ctx, ts)
    tr, cs, mx = m.process_seed(path="/nowhere", seed=None, key_to_extract=key, consider_continuations=cont, n_workers=1)
    ctx.check(len(tr) == len(cs) == n, "as-many", len(tr))
    best = None
    for i, (tid, st, t) in enumerate(info):
        best = t.report.loss if best is None else core.ite(t.report.loss < best, t.report.loss, best)
        ctx.check(ctx.eq(tr[i], best), "incumbent", i)
        w = cost[i] - cost[i - 1] if tid == "0_1" and cont else cost[i]
        ctx.check(ctx.eq(cs[i], w), "cost", (i, cs[i]))
        if tid == "0_1" and cont:
            ctx.cover("continuation")
    if key == "fidelity":
        ctx.check(core.sym_and(*[ctx.le(v, mx) for v in cost]), "largest", mx)
    ctx.cover("trace")


A = ["the trials are handed over as read from the directory (reading: C09)", "the text of dates and durations is not modelled"]
HARNESSES = [
    H(status, "up to two (thorough: three) trials in every state, sampled at any times; nine finished ones", CLI, assumptions=A, covers=["rows", "seven", "best"]),
    H(results, "up to three trials in every state with any losses", CLI, assumptions=A, covers=["none", "incumbents"]),
    H(one, "a trial in every state, or an unknown one", CLI, assumptions=A, covers=["unknown", "reported", "unreported"]),
    H(errors, "up to three errors", CLI, assumptions=A, covers=["errors", "no-errors"]),
    H(trace, "up to three evaluations with any losses and costs, continued or not", ["neps.plot.read_results.process_seed", "neps.status.status.status"], assumptions=A, covers=["trace", "continuation"]),
]
