"""Bayesian optimization with its library calls replaced by recorders."""
from __future__ import annotations

import sys

from symx import core


def everywhere(ctx, real, fake):
    """replace a library object wherever the package has imported it"""
    n = 0
    for name, m in list(sys.modules.items()):
        if m is not None and (name == "neps" or name.startswith("neps.")):
            for k, v in list(vars(m).items()):
                if v is real:
                    setattr(m, k, fake)
                    ctx.on_exit(lambda m=m, k=k: setattr(m, k, real))
                    n += 1
    return n


def rows(t):
    return None if t is None else t.tolist()


class Log:
    pass


def install(ctx, dim):
    """the Gaussian process learns nothing, the acquisition optimizer returns any legal point"""
    import neps.optimizers.bayesian_optimization.optimizer  # noqa: F401
    import neps.optimizers.bayesian_optimization.models.gp as g
    import botorch
    from botorch.acquisition.logei import qLogNoisyExpectedImprovement
    from botorch.models import SingleTaskGP
    from botorch.fit import fit_gpytorch_mll
    from botorch.optim import optimize_acqf, optimize_acqf_mixed
    from gpytorch import ExactMarginalLogLikelihood
    from neps.optimizers.bayesian_optimization.acquisition_functions.pibo import pibo_acquisition
    from neps.optimizers.bayesian_optimization.acquisition_functions.cost_cooling import cost_cooled_acq
    log = Log()
    log.gps, log.fits, log.acq, log.opt, log.pibo, log.cool = [], [], [], [], [], []

    class GP:
        likelihood = "likelihood"

        def __init__(self, train_X, train_Y, covar_module=None, outcome_transform=None, **k):
            ctx.check(len(train_X) == len(train_Y) and train_Y.ndim == 2 and train_Y.shape[1] == 1, "shape-of-the-training-data")
            self.x, self.y, self.transform = rows(train_X), [r[0] for r in rows(train_Y)], outcome_transform
            log.gps.append(self)

    class EI:
        def __init__(self, model, X_baseline, objective=None, X_pending=None, prune_baseline=False, **k):
            self.model, self.x, self.pending, self.objective = model, rows(X_baseline), rows(X_pending), objective
            log.acq.append(self)

    def fit(mll, *a, **k):
        log.fits.append(mll)

    def opt(acq_function, bounds, q, num_restarts, raw_samples=None, **k):
        b = rows(bounds)
        log.opt.append((acq_function, b, None, q, num_restarts, raw_samples))
        return cand(b, {}), None

    def opt_mixed(acq_function, bounds, q, num_restarts, fixed_features_list, raw_samples=None, **k):
        b = rows(bounds)
        log.opt.append((acq_function, b, fixed_features_list, q, num_restarts, raw_samples))
        i = ctx.choice("fixed-features", range(min(len(fixed_features_list), 6)))
        return cand(b, fixed_features_list[i]), None

    def cand(b, fixed):
        import torch
        r = []
        for j, (lo, hi) in enumerate(zip(*b)):
            if j in fixed:
                r.append(fixed[j])
            else:
                v = ctx.real("candidate", -1000, 1000)
                ctx.assume(core.sym_and(lo <= v, v <= hi))
                r.append(v)
        log.candidate = r
        if core.ENG is not None:
            from symx import tshim
            return tshim._tensor([r], dtype=torch.float64)
        return torch.tensor([r], dtype=torch.float64)

    def pibo(acq, *a, **k):
        log.pibo.append((acq, a, k))
        return ("pibo", acq)

    def cool(acq_fn, model, used_budget_percentage, **k):
        log.cool.append((acq_fn, model, used_budget_percentage))
        return ("cool", acq_fn)

    everywhere(ctx, SingleTaskGP, GP)
    everywhere(ctx, qLogNoisyExpectedImprovement, EI)
    everywhere(ctx, fit_gpytorch_mll, fit)
    everywhere(ctx, ExactMarginalLogLikelihood, lambda likelihood, model: model)
    everywhere(ctx, optimize_acqf, opt)
    everywhere(ctx, optimize_acqf_mixed, opt_mixed)
    everywhere(ctx, pibo_acquisition, pibo)
    everywhere(ctx, cost_cooled_acq, cool)
    return log
