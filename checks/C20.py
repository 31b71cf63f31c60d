"""C20: what successive halving, Hyperband and their variants propose next."""
from symx.runner import H
from symx import core, rngstub
from checks import mf

SH = ["neps.optimizers.multi_fidelity.successive_halving.*", "neps.optimizers.multi_fidelity.promotion_policy.*"]


def sizes(R, s, eta):
    """slots per rung of the bracket starting at rung s, with R+1 rungs (Hyperband paper, algorithm 1)"""
    n = ((R + 1) // (R - s + 1)) * eta ** (R - s)
    return {r: n // eta ** (r - s) for r in range(s, R + 1)}


def bracket(ctx, tag, s, R, eta, start, partial=True, statuses=("ok", "pending"), concrete=False):
    """any reachable state of a synchronous bracket"""
    sz = sizes(R, s, eta)
    n = ctx.choice(tag + "n", list(range(sz[s] + 1))) if partial else sz[s]
    cs = [mf.Cfg(s, s, False, {}, (start + i + 1) / 64) for i in range(n)]
    level = list(range(n))
    for r in range(s, R + 1):
        for i in level:
            st = ctx.choice(f"{tag}{i}-{r}", list(statuses))
            c = cs[i]
            c.rung = r
            c.pending = st == "pending"
            c.losses[r] = None if st == "error" else float(i) if concrete else mf.loss(ctx, f"{tag}loss{i}-{r}")
        done = r < R and len(level) == sz[r] and not any(cs[i].pending for i in level)
        if not done:
            break
        k = ctx.choice(f"{tag}promoted-{r}", list(range(sz[r + 1] + 1)))
        import itertools
        up = ([] if not k else level[:k] if concrete else ctx.choice(f"{tag}which-{r}", list(itertools.combinations(level, k))))
        for i in up:
            if not concrete:
                ctx.assume(mf.best_of(ctx, cs[i], r, [cs[o] for o in level if o not in up]))
        level = sorted(up)
        if not level:
            break
        # the others of the rung wait for the rung above to fill
    return cs


def sync_promotion(ctx, cs, s, R, eta):
    """(rung, members) of the promotion this bracket asks for, or None"""
    sz = sizes(R, s, eta)
    for r in range(R, s - 1, -1):
        at = [c for c in cs if c.rung == r]
        reached = sum(c.rung >= r for c in cs)
        if reached < sz[r]:
            continue
        if any(c.pending for c in at):
            return None
        if r < R and sz[r + 1] > reached - len(at):
            return r, at
    return None


def follow(ctx, s, blocks, all_cfgs, fids, known, R, eta):
    """blocks: [(bracket kind, its configurations)]; the proposal has to be what the oldest bracket that can continue asks for"""
    for kind, cs in blocks:
        p = sync_promotion(ctx, cs, kind, R, eta)
        if p is None:
            continue
        r, at = p
        ctx.check(s.previous_config_id is not None, "promotes-when-a-rung-is-complete", s.id)
        i = int(s.id.split("_")[0])
        ctx.check(0 <= i < len(all_cfgs) and all_cfgs[i] in at, "promotes-a-member-of-the-complete-rung", s.id)
        mf.check_promotion(ctx, s, all_cfgs[i], i, r, fids, known)
        ctx.check(mf.best_of(ctx, all_cfgs[i], r, at), "promotes-the-best", s.id)
        ctx.cover("promotion")
        return True
    return False


def ask(ctx, opt, ts):
    rngstub.install(ctx)
    before = list(ts)
    s = opt.ask(ts, None)
    ctx.check(list(ts) == before, "history-untouched")
    return s


def run(ctx, opt, blocks, fids, R, eta, new_rung, offset=(), reverse=False):
    cfgs = [*offset, *(c for _, cs in blocks for c in cs)]
    ts = mf.trials(ctx, cfgs, fids, reverse=reverse)
    s = ask(ctx, opt, ts)
    if not follow(ctx, s, blocks, cfgs, fids, ts, R, eta):
        mf.check_new(ctx, s, cfgs, new_rung(len(cfgs)) if callable(new_rung) else new_rung, fids, ts)
        ctx.cover("new")


def sh(**kw):
    from neps.optimizers.multi_fidelity.successive_halving import SuccessiveHalving
    return SuccessiveHalving(pipeline_space=mf.space(), eta=2, ignore_errors=True, **kw)


F3 = {0: 1, 1: 2, 2: 4}


def sync_pending(ctx):
    run(ctx, sh(), [(0, bracket(ctx, "a", 0, 2, 2, 0))], F3, 2, 2, 0, reverse=ctx.choice("reverse", [False, True]))


def sync_errors(ctx):
    rev = ctx.choice("reverse", [False, True]) if ctx.tier == "thorough" else False
    run(ctx, sh(), [(0, bracket(ctx, "a", 0, 2, 2, 0, statuses=("ok", "error")))], F3, 2, 2, 0, reverse=rev)


def sync_late(ctx):
    """a bracket that leaves out the lowest rung"""
    run(ctx, sh(early_stopping_rate=1), [(1, bracket(ctx, "a", 1, 2, 2, 0, statuses=("ok", "pending", "error")))], F3, 2, 2, 1)


def sync_eta3(ctx):
    """eta 3, two rungs"""
    from neps.optimizers.multi_fidelity.successive_halving import SuccessiveHalving
    opt = SuccessiveHalving(pipeline_space=mf.space(2, 7), eta=3, ignore_errors=True)
    run(ctx, opt, [(0, bracket(ctx, "a", 0, 1, 3, 0, statuses=("ok", "pending", "error")))], {0: 2, 1: 7}, 1, 3, 0)


def default_first(ctx):
    """the default configuration comes first, at the highest fidelity if asked, and is then left alone"""
    from neps.optimizers.multi_fidelity.successive_halving import SuccessiveHalvingWithPriors
    from neps.optimizers.multi_fidelity.hyperband import HyperbandWithPriors
    cls, R = ctx.choice("class", [(SuccessiveHalvingWithPriors, 2), (HyperbandWithPriors, 1)])
    target = ctx.choice("at-target", [False, True])
    opt = cls(pipeline_space=mf.space(1, 4 if R == 2 else 2, prior=True), budget=10, eta=2, ignore_errors=True, sample_default_first=True, sample_default_at_target=target)
    st = ctx.choice("default", ["none", "ok", "pending", "error"])
    if st == "none":
        s = ask(ctx, opt, {})
        ctx.check(ctx.eq(s.config["x"], 0.5), "is-the-default")
        mf.check_new(ctx, s, [], R if target else 0, F3, {})
        ctx.cover("first")
        return
    r = R if target else 0
    d = mf.Cfg(r, r, st == "pending", {r: None if st == "error" else mf.loss(ctx, "default-loss")}, 0.5)
    if target:
        run(ctx, opt, [(0, bracket(ctx, "a", 0, R, 2, 1, statuses=("ok", "pending") if R == 1 else ("ok",)))], F3, R, 2, 0 if R == 2 else hb_next(1, 2, 1), offset=[d])
    else:
        run(ctx, opt, [(0, [d])], F3, R, 2, 0)


def hb_next(R, eta, n):
    """rung of the n-th configuration of Hyperband, None-free"""
    return lambda total: _hb_rung(R, eta, total - n)


def _hb_rung(R, eta, i):
    k = 0
    while True:
        n = sizes(R, k, eta)[k]
        if i < n:
            return k
        i -= n
        k = (k + 1) % (R + 1)


def hb_two_rungs(ctx):
    from neps.optimizers.multi_fidelity.hyperband import Hyperband
    opt = Hyperband(pipeline_space=mf.space(1, 2), budget=10, eta=2, ignore_errors=True)
    _hb(ctx, opt, 1, ("ok", "pending", "error"), [1, 2, 3] if ctx.tier == "quick" else [1, 2, 3, 4])


def hb_three_rungs(ctx):
    from neps.optimizers.multi_fidelity.hyperband import Hyperband
    opt = Hyperband(pipeline_space=mf.space(1, 4), budget=10, eta=2, ignore_errors=True)
    _hb(ctx, opt, 2, ("ok", "pending"), [2, 3], quick_first=True)


def _hb(ctx, opt, R, statuses, numbers, quick_first=False):
    n = ctx.choice("blocks", numbers)
    blocks, start = [], 0
    for j in range(n):
        k = j % (R + 1)
        if quick_first and j == 0:
            over = ctx.choice("first", ["over", "waits"])
            cs = [mf.Cfg(0, 0, False, {0: float(i)}, i / 64) for i in range(4)]
            cs[0].rung, cs[0].losses = 2, {0: 0.0, 1: 0.0, 2: 0.0}
            cs[1].rung, cs[1].losses = 1, {0: 1.0, 1: 1.0}
            cs[0].pending = over == "waits"
        else:
            last = j == n - 1
            cs = bracket(ctx, f"b{j}-", k, R, 2, start, partial=last, statuses=statuses if last or j == n - 2 or ctx.tier == "thorough" else ("ok",))
        start += len(cs)
        blocks.append((k, cs))
    run(ctx, opt, blocks, F3, R, 2, lambda total: _hb_rung(R, 2, total))


def async_state(ctx, n, R, bases=(0,), statuses=("ok", "pending", "error")):
    cs = []
    for i in range(n):
        base = ctx.choice(f"base{i}", list(bases))
        rung = ctx.choice(f"rung{i}", list(range(base, R + 1)))
        st = ctx.choice(f"status{i}", list(statuses))
        cs.append(mf.Cfg(rung, base, st == "pending", {r: mf.loss(ctx, f"loss{i}-{r}") for r in range(base, rung + 1)}, (i + 1) / 64))
        if st == "error":
            cs[-1].losses[rung] = None
    return cs


def async_run(ctx, opt, cs, R, eta, bases, fids=F3):
    ts = mf.trials(ctx, cs, fids)
    s = ask(ctx, opt, ts)
    at = {r: [c for c in cs if c.rung == r and not c.pending] for r in range(R + 1)}
    able = [r for r in range(min(bases), R) if len(at[r]) >= eta]
    if s.previous_config_id is not None:
        r = int(s.previous_config_id.split("_")[1])
        ctx.check(bool(able) and r == max(able), "promotes-from-the-highest-rung-that-can", s.id)
        i = int(s.id.split("_")[0])
        ctx.check(0 <= i < len(cs) and cs[i] in at[r], "promotes-a-finished-member", s.id)
        mf.check_promotion(ctx, s, cs[i], i, r, fids, ts)
        ctx.check(mf.best_of(ctx, cs[i], r, at[r]), "promotes-the-best", s.id)
        ctx.cover("promotion")
    else:
        r = int(s.id.split("_")[1])
        ctx.check(r in bases, "new-at-the-lowest-rung", s.id)
        ctx.check(not able or max(able) < r, "promotes-when-it-can", s.id)
        mf.check_new(ctx, s, cs, r, fids, ts)
        ctx.cover("new")


def asha(ctx):
    from neps.optimizers.multi_fidelity.successive_halving import AsynchronousSuccessiveHalving
    s = ctx.choice("early-stopping", [0, 1])
    opt = AsynchronousSuccessiveHalving(pipeline_space=mf.space(), budget=10, eta=2, ignore_errors=True, early_stopping_rate=s)
    n = ctx.choice("n", [0, 1, 2, 3] if s == 0 or ctx.tier == "thorough" else [0, 2, 3])
    async_run(ctx, opt, async_state(ctx, n, 2, bases=(s,), statuses=("ok", "pending", "error") if n < 3 or ctx.tier == "thorough" else ("ok", "pending")), 2, 2, (s,))


def asha_many(ctx):
    from neps.optimizers.multi_fidelity.successive_halving import AsynchronousSuccessiveHalving
    eta = ctx.choice("eta", [2, 3])
    opt = AsynchronousSuccessiveHalving(pipeline_space=mf.space(1, 4 if eta == 2 else 4), budget=10, eta=eta, ignore_errors=True)
    R = 2 if eta == 2 else 1
    cs = async_state(ctx, 4, R, statuses=("ok",))
    cs[ctx.choice("which", [0, 3])].pending = ctx.choice("one-pending", [False, True])
    async_run(ctx, opt, cs, R, eta, (0,), F3 if eta == 2 else {0: 1, 1: 4})


def async_hb(ctx):
    from neps.optimizers.multi_fidelity.hyperband import AsynchronousHyperband
    opt = AsynchronousHyperband(pipeline_space=mf.space(), budget=10, eta=2, ignore_errors=True)
    n = ctx.choice("n", [0, 2, 3])
    async_run(ctx, opt, async_state(ctx, n, 2, bases=(0, 1, 2), statuses=("ok", "pending") if n < 3 or ctx.tier == "thorough" else ("ok",)), 2, 2, (0, 1, 2))


def sync_two(ctx):
    """a first bracket that waits or is over, and a second one"""
    first = ctx.choice("first", ["waits-0", "waits-1", "waits-2", "over"])
    a = [mf.Cfg(0, 0, False, {0: float(i)}, i / 64) for i in range(4)]
    if first == "waits-0":
        a[ctx.choice("pending", [0, 3])].pending = True
    else:
        for i in (0, 1):
            a[i].rung, a[i].losses = 1, {0: float(i), 1: float(i)}
        if first == "waits-1":
            a[ctx.choice("pending", [0, 1])].pending = True
        else:
            a[0].rung, a[0].pending, a[0].losses[2] = 2, first == "waits-2", 1.0
    b = bracket(ctx, "b", 0, 2, 2, 4, statuses=("ok",) if ctx.tier == "quick" else ("ok", "pending"))
    run(ctx, sh(), [(0, a), (0, b)], F3, 2, 2, 0)


A = ["losses are exact reals without NaN; pandas and numpy execute natively on symbolic entries"]
B3 = "eta 2, three rungs with 4, 2 and 1 slots; "
HB = ["neps.optimizers.multi_fidelity.hyperband.*"]
PN = ["promotion", "new"]
HARNESSES = [
    H(sync_pending, B3 + "any reachable state of one bracket, any losses, any of its evaluations in progress, trials in two orders", SH, assumptions=A, covers=PN),
    H(sync_errors, B3 + "any reachable state of one bracket, any of its evaluations failed", SH, assumptions=A, covers=PN),
    H(sync_two, B3 + "a first bracket waiting at any rung or over, any state of a second one", SH, assumptions=A, covers=PN),
    H(sync_late, B3 + "early stopping rate 1, any state of one bracket", SH, assumptions=A, covers=PN),
    H(sync_eta3, "eta 3, two rungs with 3 and 1 slots, any state of one bracket", SH, assumptions=A, covers=PN),
    H(default_first, "eta 2, successive halving with three rungs and Hyperband with two, any state of the bracket after the default", SH + HB, assumptions=A, covers=["first", *PN]),
    H(hb_two_rungs, "eta 2, two rungs, any state of up to three (thorough: four) successive brackets", SH + HB, assumptions=A, covers=PN),
    H(hb_three_rungs, "eta 2, three rungs, first bracket waiting or over, any state of the next two", SH + HB, assumptions=A, covers=PN),
    H(asha, "eta 2, three rungs, up to three configurations in any state", SH, assumptions=A, covers=PN),
    H(asha_many, "eta 2 or 3, four configurations in any rung, at most one of them in progress", SH, assumptions=A, covers=PN),
    H(async_hb, "eta 2, three rungs, up to three configurations started at any rung", SH + HB, assumptions=A, covers=PN),
]
