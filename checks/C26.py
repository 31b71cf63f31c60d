"""C26: an evaluation finds its own directory, the one it continues from, the first of its chain, and its checkpoints."""
import importlib
import shutil
import types
from pathlib import Path

from symx.runner import H
from symx import core
from . import rt

CM = ["neps.utils.common.{get_initial_directory,save_checkpoint,load_checkpoint,load_lightning_checkpoint}", "neps.state._eval.evaluate_trial",
      "neps.state.neps_state.NePSState.{sample_trial,get_trial_by_id}", "neps.runtime.{DefaultWorker.run,_set_global_trial,get_in_progress_trial,get_workers_neps_state}"]


class Chains:
    """proposes configurations that continue given earlier ones"""

    def __init__(self, ids, prev, vals):
        self.ids, self.prev, self.vals = ids, prev, vals

    def ask(self, trials, budget_info=None, **kw):
        from neps.optimizers.base_optimizer import SampledConfig
        i = len(trials)
        p = self.prev[i]
        return SampledConfig(id=self.ids[i], config={"x": self.vals[i]}, previous_config_id=None if p is None else self.ids[p])


class Disk:
    """torch.save/torch.load: a file holds the object saved to it"""

    def __init__(self):
        self.f = {}

    def save(self, obj, path):
        Path(path).write_text("checkpoint")
        self.f[str(path)] = dict(obj)

    def load(self, path, weights_only=None, **k):
        return dict(self.f[str(path)])


class Net:
    def __init__(self, w):
        self.w = w

    def state_dict(self):
        return {"w": self.w}

    def load_state_dict(self, d):
        self.w = d["w"]


def install(ctx):
    m = importlib.import_module("neps.utils.common")
    disk = Disk()
    old = m.torch
    ctx.on_exit(lambda: setattr(m, "torch", old))
    m.torch = types.SimpleNamespace(save=disk.save, load=disk.load, nn=old.nn, optim=old.optim)
    # nothing remembered of what other executions of this check did
    for k, v in list(vars(m).items()):
        if isinstance(v, dict) and "CACHE" in k:
            v.clear()
    return m


def first(prev, i):
    while prev[i] is not None:
        i = prev[i]
    return i


def run(ctx, m, root, tag, n, checkpoints):
    style = ctx.choice("ids" + tag, ["plain", "rungs"]) if not tag else "plain"
    ids = [str(i + 1) for i in range(n)] if style == "plain" else [f"{i // 2}_{i % 2}" for i in range(n)]
    prev = [None] + [ctx.choice(f"continues{tag}{i}", [None] + list(range(i))) for i in range(1, n)]
    vals = [ctx.real(f"x{tag}{i}", -9, 9) for i in range(n)]
    states = [ctx.real(f"weights{tag}{i}", -9, 9) for i in range(n)] if checkpoints else None
    explicit = ctx.choice("asks-by" + tag, ["trial", "directory", "text"])
    st = rt.state(root)
    base = Path(root) / "r" / "configs"
    # the directories as the state itself writes them
    seen = []

    def evaluate(x, pipeline_directory, previous_pipeline_directory):
        i = len(seen)
        seen.append(x)
        mine = base / f"config_{ids[i]}"
        ctx.check(ctx.eq(x, vals[i]), "its-configuration", i)
        ctx.check(Path(pipeline_directory).resolve() == mine.resolve(), "its-directory", str(pipeline_directory))
        p = None if prev[i] is None else base / f"config_{ids[prev[i]]}"
        if p is None:
            ctx.check(previous_pipeline_directory is None, "nothing-before", previous_pipeline_directory)
        else:
            ctx.check(previous_pipeline_directory is not None and Path(previous_pipeline_directory).resolve() == p.resolve(), "the-one-before", str(previous_pipeline_directory))
            ctx.cover("continued")
        f = first(prev, i)
        for again in range(2):
            arg = () if explicit == "trial" else (pipeline_directory,) if explicit == "directory" else (str(pipeline_directory),)
            d = m.get_initial_directory(*arg)
            ctx.check(Path(d).resolve() == (base / f"config_{ids[f]}").resolve(), "the-first", str(d))
        if f not in (i, prev[i]):
            ctx.cover("long-chain")
        if p is not None and i == n - 1:
            d = m.get_initial_directory(p)
            ctx.check(Path(d).resolve() == (base / f"config_{ids[f]}").resolve(), "the-first-of-another", str(d))
        if checkpoints:
            net, opt = Net(None), Net(None)
            got = m.load_checkpoint(model=net, optimizer=opt)
            j = prev[i]
            if j is None:
                ctx.check(got is None and net.w is None and opt.w is None, "no-checkpoint", got)
            else:
                ctx.check(got is not None and ctx.eq(got["epoch"], j) and ctx.eq(net.w, states[j]) and ctx.eq(opt.w, states[j] + 1), "its-checkpoint", j)
                ctx.cover("loaded")
            m.save_checkpoint(values_to_save={"epoch": i}, model=Net(states[i]), optimizer=Net(states[i] + 1))
            later = m.load_checkpoint()
            ctx.check(later is None if j is None else later is not None and ctx.eq(later["epoch"], j), "still-the-one-before", i)
            own = m.load_checkpoint(pipeline_directory)
            ctx.check(own is not None and own["epoch"] == i and ctx.eq(own["model_state_dict"]["w"], states[i]), "saved-in-its-directory", i)
        return 1.0

    rt.worker(st, Chains(ids, prev, vals), evaluate, rt.settings(max_evaluations_for_worker=n)).run()
    ctx.check(len(seen) == n, "all-evaluated", len(seen))
    ts = rt.state(root).get_all_trials()
    for i in range(n):
        ctx.check(ts[ids[i]].state.name == "SUCCESS", "succeeded", (i, str(getattr(ts[ids[i]].report, "err", None))))


def chains(ctx):
    rt.reset_globals(ctx)
    rt.clock(ctx)
    m = install(ctx)
    root = rt.scratch(ctx)
    run(ctx, m, root, "", 4 if ctx.tier == "quick" else 5, False)


def checkpoints(ctx):
    rt.reset_globals(ctx)
    rt.clock(ctx)
    m = install(ctx)
    root = rt.scratch(ctx)
    run(ctx, m, root, "-c", 3, True)


def two_runs(ctx):
    """a second run in the same process, elsewhere or over the first"""
    rt.reset_globals(ctx)
    rt.clock(ctx)
    m = install(ctx)
    root = rt.scratch(ctx)
    same = ctx.choice("same-directory", [False, True])
    for k in "ab":
        d = root / ("a" if same else k)
        # as with overwrite_working_directory
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        run(ctx, m, d, "-" + k, 2, False)
    ctx.cover("second-run")


def missing(ctx):
    """nothing saved: nothing loaded, whatever is asked for"""
    rt.reset_globals(ctx)
    m = install(ctx)
    root = rt.scratch(ctx)
    name = ctx.choice("name", ["checkpoint", "other"])
    saved = ctx.choice("saved", [False, True])
    has = {p: ctx.choice(p, [False, True]) for p in ("values", "model", "optimizer")}
    w = ctx.real("w", -9, 9)
    if saved:
        kw = {}
        if has["values"]:
            kw["values_to_save"] = {"v": w}
        if has["model"]:
            kw["model"] = Net(w)
        if has["optimizer"]:
            kw["optimizer"] = Net(w + 1)
        m.save_checkpoint(root, "checkpoint", **kw)
    into = ctx.choice("loaded into", ["both", "model", "optimizer", "neither"])
    net, opt = Net(None), Net(None)
    kw = {}
    if into in ("both", "model"):
        kw["model"] = net
    if into in ("both", "optimizer"):
        kw["optimizer"] = opt
    got = m.load_checkpoint(root, name, **kw)
    if not saved or name == "other":
        ctx.check(got is None and net.w is None and opt.w is None, "nothing", got)
        ctx.cover("nothing")
        return
    ctx.check(set(got) == {k for k, p in (("v", "values"), ("model_state_dict", "model"), ("optimizer_state_dict", "optimizer")) if has[p]}, "what-was-saved", sorted(got))
    if "v" in got:
        ctx.check(ctx.eq(got["v"], w), "value")
    ctx.check(ctx.eq(net.w, w) if has["model"] and "model" in kw else net.w is None, "model")
    ctx.check(ctx.eq(opt.w, w + 1) if has["optimizer"] and "optimizer" in kw else opt.w is None, "optimizer")
    ctx.cover("saved")


A = ["torch's file format is not modelled: a checkpoint file holds the object saved", "symbolic values cross the YAML/JSON files as opaque tokens"]
HARNESSES = [
    H(chains, "four (thorough: five) evaluations, each continuing any earlier one or none, plain and multi-fidelity ids", CM, assumptions=A, covers=["continued", "long-chain"]),
    H(checkpoints, "three evaluations continuing any earlier one, each loading and saving its checkpoint", CM, assumptions=A, covers=["continued", "loaded"]),
    H(two_runs, "two runs of two evaluations in one process, any chains", CM, assumptions=A, covers=["second-run", "continued"]),
    H(missing, "a checkpoint that is or is not there, with any of its parts", CM, assumptions=A, covers=["nothing", "saved"]),
]
