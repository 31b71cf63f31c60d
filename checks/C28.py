"""C28: what an evaluation logs for tensorboard is written under the configuration it belongs to."""
import importlib
from pathlib import Path

from symx.runner import H
from symx import core
from . import rt
from .C13 import T

TB = ["neps.plot.tensorboard_eval.tblogger.{log,_initiate_internal_configurations,_initialize_writers,_write_scalar_config,_write_hparam_config,_tracking_incumbent_api,end_of_config,enable,disable}",
      "neps.runtime._set_global_trial", "neps.utils.common.get_initial_directory", "neps.status.status.get_summary_dict"]


class Writer:
    log = []
    open = []

    def __init__(self, log_dir, *a, **k):
        self.dir = Path(log_dir)
        self.dir.mkdir(parents=True, exist_ok=True)
        Writer.open.append(self)

    def add_scalar(self, tag, scalar_value, global_step):
        Writer.log.append((self.dir.resolve(), tag, scalar_value, global_step))

    def add_hparams(self, hparam_dict, metric_dict, global_step):
        Writer.log.append((self.dir.resolve(), "hparams", dict(hparam_dict), global_step))
        for k, v in metric_dict.items():
            self.add_scalar("Summary/" + k, v, global_step)

    def add_image(self, tag, img_tensor, global_step):
        Writer.log.append((self.dir.resolve(), tag, img_tensor, global_step))

    def flush(self):
        pass

    def close(self):
        pass


def install(ctx):
    m = importlib.import_module("neps.plot.tensorboard_eval")
    r = importlib.import_module("neps.runtime")
    old = m.SummaryWriter_
    saved = {k: v for k, v in vars(m.tblogger).items() if not k.startswith("_") and not isinstance(v, staticmethod)}
    cbs = dict(r._TRIAL_END_CALLBACKS)

    def undo():
        m.SummaryWriter_ = old
        for k, v in saved.items():
            setattr(m.tblogger, k, v)
        r._TRIAL_END_CALLBACKS.clear()
        r._TRIAL_END_CALLBACKS.update(cbs)
    ctx.on_exit(undo)
    m.SummaryWriter_ = Writer
    Writer.log, Writer.open = [], []
    t = m.tblogger
    t.config_writer = t.summary_writer = t.config_previous_directory = t.config_id = t.config = t.config_working_directory = t.optimizer_dir = None
    t.disable_logging = False
    t.write_incumbent = None
    r._TRIAL_END_CALLBACKS.clear()
    return m


class Chains:
    def __init__(self, prev, vals):
        self.prev, self.vals = prev, vals

    def ask(self, trials, budget_info=None, **kw):
        from neps.optimizers.base_optimizer import SampledConfig
        i = len(trials)
        p = self.prev[i]
        return SampledConfig(id=str(i + 1), config={"x": self.vals[i]}, previous_config_id=None if p is None else str(p + 1))


def run(ctx, m, root, tag, n, modes):
    prev = [None] + [ctx.choice(f"continues{tag}{i}", [None] + list(range(i))) for i in range(1, n)]
    vals = [ctx.real(f"x{tag}{i}", -9, 9) for i in range(n)]
    loss = [[ctx.real(f"loss{tag}{i}-{e}", -9, 9) for e in range(2)] for i in range(n)]
    step = [ctx.int(f"epoch{tag}{i}", 0, 9) for i in range(n)]
    acc = [ctx.real(f"acc{tag}{i}", 0, 1) for i in range(n)]
    mode = ctx.choice("writes" + tag, modes)
    off = ctx.choice("disabled" + tag, [None] + list(range(n))) if not tag else None
    st = rt.state(root)
    base = (Path(root) / "r").resolve()
    seen, want = [], []
    done = []

    def first(i):
        while prev[i] is not None:
            i = prev[i]
        return i

    def evaluate(x):
        i = len(seen)
        seen.append(i)
        # the initial evaluation of a chain logs, as tensorboard needs it to
        if off == i:
            m.tblogger.disable()
            ctx.check(m.tblogger.get_status() is False, "disabled")
        for e in range(2):
            m.tblogger.log(loss=loss[i][e], current_epoch=step[i] + e, writer_config_scalar=mode != "hparams", writer_config_hparam=mode != "scalars",
                           write_summary_incumbent=mode == "incumbent", extra_data={"acc": m.tblogger.scalar_logging(acc[i])} if e else None)
        m.tblogger.enable()
        ctx.check(m.tblogger.get_status() is True, "enabled")
        f = first(i)
        d = base / "configs" / f"config_{f + 1}" / "tbevents"
        if off != i:
            for e in range(2):
                if mode != "hparams":
                    want.append((d, f"config_{f + 1}/Loss", loss[i][e], step[i] + e))
                if mode != "scalars":
                    want.append((d, "hparams", vals[i], step[i] + e))
                    want.append((d, "Summary/Loss", loss[i][e], step[i] + e))
                if e:
                    want.append((d, f"config_{f + 1}/acc", acc[i], step[i] + e))
            if f != i:
                ctx.cover("continued")
        return loss[i][1]

    k = len(Writer.log)
    if off is not None and any(first(i) == off and i != off for i in range(n)):
        ctx.assume(False)
    rt.worker(st, Chains(prev, vals), evaluate, rt.settings(max_evaluations_for_worker=n)).run()
    ts = rt.state(root).get_all_trials()
    for i in range(n):
        ctx.check(ts[str(i + 1)].state.name == "SUCCESS", "succeeded", (i, str(getattr(ts[str(i + 1)].report, "err", None))))
    got = [x for x in Writer.log[k:] if x[1] != "Summary/Incumbent_graph"]
    ctx.check(len(got) == len(want), "as-many", (len(got), len(want)))
    for g, w in zip(got, want):
        ctx.check(g[0] == w[0] and g[1] == w[1], "where", (str(g[0]), g[1], str(w[0]), w[1]))
        ctx.check(ctx.eq(g[2]["x"] if g[1] == "hparams" else g[2], w[2]), "value", g[1])
        ctx.check(ctx.eq(g[3], w[3]), "step", g[1])
    inc = [x for x in Writer.log[k:] if x[1] == "Summary/Incumbent_graph"]
    if mode == "incumbent":
        # one point for each evaluation: the best loss recorded so far
        ctx.check(len(inc) == n - (off == 0), "incumbents", len(inc))
        for d, _, v, s in inc:
            ctx.check(d == base / "summary", "incumbent-where", str(d))
            ctx.check(0 <= s <= n, "incumbent-step", s)
            if s:
                b = loss[0][1]
                for i in range(1, s):
                    b = core.smin(b, loss[i][1])
                ctx.check(ctx.eq(v, b), "incumbent", s)
                ctx.cover("incumbent")
    elif off is None:
        ctx.check(not inc, "no-incumbents", inc)


def logged(ctx):
    rt.reset_globals(ctx)
    rt.clock(ctx)
    ctx.messages_as_tokens()
    m = install(ctx)
    run(ctx, m, rt.scratch(ctx), "", 3, ["scalars", "hparams", "both", "incumbent"] if ctx.tier != "quick" else ["scalars", "hparams", "incumbent"])


def two_runs(ctx):
    """a second run of the same process logs into its own directory"""
    rt.reset_globals(ctx)
    rt.clock(ctx)
    ctx.messages_as_tokens()
    m = install(ctx)
    root = rt.scratch(ctx)
    for k in "ab":
        (root / k).mkdir()
        run(ctx, m, root / k, "-" + k, 2, ["both", "incumbent"])
    ctx.cover("second-run")


def images(ctx):
    """the images logged: those chosen, each once, side by side in order, under the step given"""
    import numpy as np
    import torch
    ctx.messages_as_tokens()
    m = install(ctx)
    t = m.tblogger
    n = ctx.choice("images", [1, 2, 3, 5] if ctx.tier != "quick" else [1, 2, 5])
    px = [[ctx.real(f"pixel{i}-{j}", 1, 2) for j in range(2)] for i in range(n)]
    img = T([[[p]] for p in px])
    most = ctx.choice("at most", [1, 2, 20])
    rnd = ctx.choice("random", [False, True])
    every = ctx.choice("every", [1, 3])
    step = ctx.int("epoch", 0, 9)
    size = ctx.choice("size", [None, [1, 2]])
    asked = []
    real = torch.nn.functional.interpolate

    def resized(x, size=None, **k):
        asked.append(tuple(size))
        return x
    torch.nn.functional.interpolate = resized
    ctx.on_exit(lambda: setattr(torch.nn.functional, "interpolate", real))
    root = rt.scratch(ctx)
    t.config_writer = Writer(root / "tb")
    t.config_id = "config_7"
    t.current_epoch = step
    mode, *rest = t.image_logging(img, every, resize_images=size, random_images=rnd, num_images=most, seed=5)
    ctx.check(mode == "image", "mode", mode)
    for _ in range(2):
        t._write_image_config("tag", rest[0], rest[1], resize_images=rest[2], random_images=rest[3], num_images=rest[4], seed=rest[5])
    got = Writer.log
    due = bool(step % every == 0)
    ctx.check(len(got) == 2 * due, "as-often", len(got))
    if not due:
        ctx.cover("not-due")
        return
    k = min(most, n)
    ctx.check(set(asked) == {tuple(size or [32, 32])}, "size", asked)
    first = None
    for d, tag, g, s in got:
        ctx.check(d == (root / "tb").resolve() and tag == "config_7/tag" and ctx.eq(s, step), "where", (str(d), tag))
        # cells of one row and two columns, two apart
        ch, hh, ww = g.shape
        ctx.check(ch == 1 and (hh - 2) % 3 == 0 and (ww - 2) % 4 == 0, "shape", (ch, hh, ww))
        rows, cols = (hh - 2) // 3, (ww - 2) // 4
        ctx.check(rows * cols >= k > (rows - 1) * cols, "room", (rows, cols))
        at = [[g[0, 2 + 3 * (i // cols), 2 + 4 * (i % cols) + j].item() for j in range(2)] for i in range(k)]
        rest_ = [g[0, y, x].item() for y in range(hh) for x in range(ww)
                 if not any(y == 2 + 3 * (i // cols) and 0 <= x - 2 - 4 * (i % cols) < 2 for i in range(k))]
        ctx.check(all(type(v) is float and v == 0 for v in rest_), "nothing-else")
        if not rnd:
            ctx.check(core.sym_and(*[ctx.eq(at[i][j], px[i][j]) for i in range(k) for j in range(2)]), "the-first", k)
        else:
            for i in range(k):
                ctx.check(core.sym_or(*[core.sym_and(*[ctx.eq(at[i][j], q[j]) for j in range(2)]) for q in px]), "one-of-them", i)
            # as many different ones, were the given ones all different
            ctx.check(core.sym_or(core.sym_not(core.sym_and(*[core.sym_not(ctx.eq(px[a][0], px[b][0])) for a in range(n) for b in range(a)])),
                                  core.sym_and(*[core.sym_not(ctx.eq(at[a][0], at[b][0])) for a in range(k) for b in range(a)])), "each-once", k)
            if first is None:
                first = at
            ctx.check(core.sym_and(*[ctx.eq(a, b) for p, q in zip(at, first) for a, b in zip(p, q)]), "same-seed-same-images")
    ctx.cover("random" if rnd else "first")


A = ["tensorboard's writer is replaced by a recorder of what it is given", "symbolic values cross the YAML/JSON files as opaque tokens", "resizing images is torch's"]
HARNESSES = [
    H(logged, "three evaluations continuing any earlier one, two log calls each with any values, logging disabled for one or none", TB, assumptions=A, covers=["continued", "incumbent"]),
    H(two_runs, "two runs of two evaluations in one process", TB, assumptions=A, covers=["second-run", "continued", "incumbent"]),
    H(images, "up to five images of two pixels with any values, up to any number of them shown, in any epoch", ["neps.plot.tensorboard_eval.tblogger.{image_logging,_write_image_config,_make_grid}"],
      assumptions=A, covers=["first", "random", "not-due"], sym_alloc=True),
]
