"""C05: with a fixed random state in the directory, the sequence of proposals does not depend on who asks when."""
from checks import wk
from symx import conc, core
from symx.conc import Scenario as S


def optimizer():
    """Random search whose proposal uses every global generator, cached Gaussians included."""
    import random

    import numpy as np
    import torch

    import neps.search_spaces as ss
    from neps.optimizers.base_optimizer import SampledConfig
    from neps.optimizers.random_search.optimizer import RandomSearch

    class O(RandomSearch):
        def ask(self, trials, budget_info):
            c = super().ask(trials, budget_info)
            d = (random.random(), random.gauss(0, 1), float(np.random.rand()), float(np.random.randn()),
                 float(torch.rand(1)), float(torch.randn(1)))
            return SampledConfig(id=c.id, config={"x": repr((c.config["x"], d))}, previous_config_id=None)
    return O(pipeline_space=ss.SearchSpace(x=ss.FloatParameter(0.0, 1.0)))


def sample(root, who, state=None):
    state = state or wk.open_state(root)
    t = state.sample_trial(optimizer(), worker_id="worker-" + who)
    conc.mark("sampled", t.id, t.config["x"])


def reference():
    """the proposals one worker alone would have made, from the same initial storage"""
    import os, shutil, tempfile
    d = tempfile.mkdtemp(prefix="symx_ref_")
    try:
        root = os.path.join(os.path.realpath(d), "r")
        conc.View(root).restore(conc.snapshot_of(wk.fresh))
        conc.fresh_process("I")
        st = wk.open_state(root)
        out = []
        for _ in range(3):
            t = st.sample_trial(optimizer(), worker_id="worker-I")
            out.append((t.id, t.config["x"]))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


_REF = None


def ref():
    global _REF
    if _REF is None:
        _REF = reference()
    return _REF


def judge(J):
    r = ref()
    J.check(J.a["exc"] is None, "sampling-succeeds", J.a["exc"])
    a = [(m[1], m[2]) for m in J.a_marks("sampled")]
    b = [(m[1], m[2]) for m, _ in J.b_marks("sampled")]
    J.check(sorted(a + b) == r[:len(a) + len(b)], "same-sequence-as-one-worker", (a, b, r))


def sample2(root, who, state=None):
    sample(root, who, state)
    sample(root, who, state)


def sample_noise(root, who, state=None):
    """the evaluation uses the global generators too"""
    import random
    import numpy as np
    import torch
    sample(root, who, state)
    random.random(), np.random.rand(), torch.rand(1)
    sample(root, who, state)


def judge_one(J):
    """a worker that was restarted goes on with the sequence"""
    r = ref()
    J.check(J.a["exc"] is None, "sampling-succeeds", J.a["exc"])
    a = [(m[1], m[2]) for m in J.a_marks("sampled")]
    b = J.b_marks("sampled")
    seq = [(m[1], m[2]) for m, _ in b]
    J.check(seq == r[:len(seq)], "same-sequence-as-one-worker", (seq, r))
    if not J.crashed:
        J.check(seq + a == r[:len(seq) + len(a)], "restart-continues-sequence", (seq, a, r))


HARNESSES = [
    wk.fn([S("sample", wk.fresh, sample, sample, judge, prelude=wk.opened)], "sample",
          "two workers sample one trial each; all interleavings", covers=["sample:A:sampled"]),
    wk.fn([S("sample21", wk.fresh, sample, sample_noise, judge, prelude=wk.opened)], "sample21",
          "one worker samples twice (using the generators in between), the other once; all interleavings",
          covers=["sample21:A:sampled"]),
    wk.fn([S("restart", wk.fresh, sample, sample2, judge_one, after=True)], "restart",
          "a worker samples twice and ends, a new process samples once", covers=["restart:A:sampled"]),
    wk.fn([S("runsample", wk.fresh, wk.run1, sample,
             lambda J: J.check(J.a["exc"] is None, "no-error", J.a["exc"]), prelude=wk.opened)], "runsample",
          "one worker runs, the other samples", thorough_only=True),
]
REPLAY = wk.replayer(HARNESSES)
