"""Symbolic interleavings and crash points of two workers running the real code.

Worker A's real code is executed under the engine.  Worker B is a *trace*: the list of
storage/lock events some earlier run of its real code made, with what each read observed and
each write stored.  Per event k of A that can interact with B a solver integer p_k counts how
many events of B come before it, and one solver integer ``cut`` counts how many events of B
ever happen (cut < |B|: B died there, or is still paused there).  What A's reads observe is
forked by *value*; z3 decides which values some assignment of p_0 <= p_1 <= ... <= cut allows
under last-writer visibility, lock exclusion, and the requirement that every executed read of B
would still observe what the trace says it observed.  One path therefore stands for all
interleavings with the same observations, and an assertion is checked over all of them.

Traces are closed under "run against every known trace of the other worker" (fixpoint); by
induction on the global order every joint execution within the bounds is covered.
"""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import shutil
import tempfile
import time

from . import core
from .fsx import R, R_OPEN, Interposer
from .z3load import z3

ABSENT = ("absent",)
DIR = ("dir",)
TOK = b"\xe2\x9f\xaaROOT\xe2\x9f\xab"


class Ev:
    __slots__ = ("reads", "writes", "lock", "mark", "what")

    def __init__(self, reads=(), writes=(), lock=None, mark=None, what=""):
        self.reads, self.writes, self.lock, self.mark, self.what = tuple(reads), tuple(writes), lock, mark, what

    def key(self):
        return (self.reads, self.writes, self.lock, self.mark)

    def short(self):
        def v(x):
            return x[0] if len(x) < 2 else "file:" + hashlib.md5(x[1]).hexdigest()[:6] + ":" + repr(x[1][:24])
        return (self.what, [(p, l, v(o)) for p, l, o in self.reads], [(p, v(o)) for p, o in self.writes],
                self.lock, self.mark)


class Trace:
    def __init__(self, events, outcome):
        self.events, self.outcome = events, outcome
        h = hashlib.sha256()
        for e in events:
            h.update(repr(e.key()).encode())
        h.update(repr(outcome).encode())
        self.id = h.hexdigest()[:16]
        self.index()

    def index(self):
        self.wr, self.rd, self.locks, self.lockacq = {}, {}, {}, {}
        self.ens = {p for e in self.events if e.what.startswith("ensure") for p, _v in e.writes}
        openl = {}
        for j, e in enumerate(self.events):
            for p, v in e.writes:
                self.wr.setdefault(p, []).append((j, v))
            for p, l, o in e.reads:
                self.rd.setdefault(p, []).append((j, l, o))
            if e.lock:
                op, p = e.lock
                if op == "L":
                    openl[p] = j
                    self.lockacq.setdefault(p, []).append(j)
                elif p in openl:
                    self.locks.setdefault(p, []).append((openl.pop(p), j))
        for p, j in openl.items():
            self.locks.setdefault(p, []).append((j, len(self.events)))


EMPTY = Trace([], {"marks": []})


def abstract(v, level):
    return v if level == "content" else (v[0],)


# ------------------------------------------------------------------ view handling


class View:
    def __init__(self, root):
        self.root = root

    def rel(self, p):
        return "." if p == self.root else p[len(self.root) + 1:]

    def abs(self, r):
        return self.root if r == "." else self.root + "/" + r

    def get(self, rel):
        p = self.abs(rel)
        try:
            st = R["lstat"](p)
        except FileNotFoundError:
            return ABSENT
        except NotADirectoryError:
            return ABSENT
        import stat
        if stat.S_ISDIR(st.st_mode):
            return DIR
        with R_OPEN(p, "rb") as f:
            return ("file", f.read().replace(self.root.encode(), TOK))

    def put(self, rel, val):
        p = self.abs(rel)
        cur = self.get(rel)
        if cur == val:
            return
        if cur == DIR and val != DIR:
            shutil.rmtree(p)
        if val == ABSENT:
            if cur != ABSENT and cur != DIR:
                R["unlink"](p)
        elif val == DIR:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            fd = R["open"](p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.write(fd, val[1].replace(TOK, self.root.encode()))
            R["close"](fd)

    def snapshot(self):
        out = {}
        if not os.path.isdir(self.root):
            return {}
        for d, ds, fs in os.walk(self.root):
            out[self.rel(d)] = DIR
            for f in fs:
                r = self.rel(os.path.join(d, f))
                out[r] = self.get(r)
        return out

    def restore(self, snap):
        if os.path.exists(self.root):
            shutil.rmtree(self.root)
        for r, v in sorted(snap.items()):
            self.put(r, v)


# ------------------------------------------------------------------ symbolic handler


class SymHandler:
    """What A's calls observe, given init contents, A's own writes and B's trace."""

    def __init__(self, e, view, init, tb, crash):
        self.e, self.v, self.init, self.tb, self.crash = e, view, init, tb, crash
        self.events = []
        self.own = {}          # rel -> list of (k, p_k or None, value, nxt var)
        self.last_p = z3.IntVal(0)
        n = len(tb.events)
        self.n = n
        self.cut = z3.Int("cut")
        e.add(self.cut >= 0, self.cut <= n)
        self.ps = []           # (k, p_k)
        self.open_locks = {}   # rel -> p_k1
        self.live_nxt = []
        self.on_deadlock = lambda *a: None
        # B reads whose observation is not explained by init / own writes: need a write of A
        self.needs = []
        for p, rds in tb.rd.items():
            for j, level, obs in rds:
                base, j0 = self._b_base(p, j)
                if abstract(base, level) != obs:
                    self.needs.append((p, j, j0, level, obs))

    def _b_base(self, p, j):
        base, j0 = self.init.get(p, ABSENT), -1
        for jj, v in self.tb.wr.get(p, ()):
            if jj < j:
                base, j0 = v, jj
        return base, j0

    # ---- order variables
    final = None
    after = False

    def tick(self):
        k = len(self.events)
        if self.final is not None:
            self.last_p = self.final
            return self.final
        p = z3.Int(f"p{k}")
        self.e.add(p >= self.last_p, p <= self.cut)
        for nx in self.live_nxt:
            self.e.add(nx >= p)
        self.last_p = p
        self.ps.append((k, p))
        for L, p1 in self.open_locks.items():
            for j in self.tb.lockacq.get(L, ()):
                self.e.add(z3.Implies(p > j, p1 > j))
        for (f, j, j0, level, obs) in self.needs:
            alts = [z3.And(pi <= j, pi > j0, nx > j) for (_k, pi, v, nx) in self.own.get(f, ())
                    if pi is not None and abstract(v, level) == obs]
            self.e.add(z3.Implies(p > j, z3.Or(*alts) if alts else z3.BoolVal(False)))
        return p

    def conflicts(self, rels_r=(), rels_w=()):
        return any(r in self.tb.wr and not self.constant(r) for r in rels_r) or any(
            r in self.tb.wr or r in self.tb.rd for r in rels_w)

    def constant(self, rel, val=None):
        """every value rel ever had or gets is the same one (val, if given)."""
        v0 = self.init.get(rel, ABSENT) if val is None else val
        return (self.init.get(rel, ABSENT) == v0 and all(v == v0 for _j, v in self.tb.wr.get(rel, ()))
                and all(o[2] == v0 for o in self.own.get(rel, ())))

    def ensure(self, path, isdir, do):
        """mkdir/touch with exist_ok: afterwards it exists; nothing is observed about before."""
        rel = self.v.rel(path)
        parent = os.path.dirname(rel) or "."
        val = DIR if isdir else ("file", b"")
        if not isdir and not all(v == val or v == ABSENT for v in
                                 [self.init.get(rel, ABSENT)] + [v for _j, v in self.tb.wr.get(rel, ())] +
                                 [o[2] for o in self.own.get(rel, ())]):
            raise core.EngineGap(f"touch of a file with content: {rel}")
        noop = self.constant(rel, val)
        p = self.tick() if self.conflicts([parent] if rel != "." else [], [] if noop else [rel]) else None
        rds = [(parent, "kind", self.resolve(parent, "kind", p))] if rel != "." else []
        if rds and rds[0][2] == ("absent",):
            self.emit(Ev(reads=rds, what="create-failed"))
            raise FileNotFoundError(2, "No such file or directory", path)
        if isdir and any(v[0] == "file" for v in [self.init.get(rel, ABSENT)] + [v for _j, v in self.tb.wr.get(rel, ())]):
            raise core.EngineGap(f"mkdir over a file: {rel}")
        self.v.put(rel, val)
        if noop:
            self.emit(Ev(reads=rds, what="ensure-noop"))
        else:
            self.note_write(rel, p, val)
            self.emit(Ev(reads=rds, writes=[(rel, val)], what="ensure"))

    def cond_value(self, rel, p, level, obs):
        """formula: at position p of A, rel looks like obs."""
        srcs = []
        bw = self.tb.wr.get(rel, ())
        own = self.own.get(rel)
        if own:
            _k, po, v, _nx = own[-1]
            po = po if po is not None else z3.IntVal(0)
            none_after = [z3.Not(z3.And(po <= j, j < p)) for j, _ in bw]
            if abstract(v, level) == obs:
                srcs.append(z3.And(*none_after))
        else:
            po = z3.IntVal(0)
            if abstract(self.init.get(rel, ABSENT), level) == obs:
                srcs.append(z3.And(*[z3.IntVal(j) >= p for j, _ in bw]))
        for i, (j, v) in enumerate(bw):
            if abstract(v, level) == obs:
                later = [z3.IntVal(j2) >= p for j2, _ in bw[i + 1:]]
                srcs.append(z3.And(z3.IntVal(j) < p, po <= j, *later))
        return z3.Or(*srcs) if srcs else z3.BoolVal(False)

    def candidates(self, rel, level):
        vals = [self.own[rel][-1][2]] if self.own.get(rel) else [self.init.get(rel, ABSENT)]
        vals += [v for _, v in self.tb.wr.get(rel, ())]
        out = []
        for v in vals:
            if abstract(v, level) not in [abstract(x, level) for x in out]:
                out.append(v)
        return out

    def resolve(self, rel, level, p):
        """fork over what A sees; materialise it in the view; return the observation."""
        if rel not in self.tb.wr:
            cur = self.own[rel][-1][2] if self.own.get(rel) else self.init.get(rel, ABSENT)
            return abstract(cur, level)
        cands = self.candidates(rel, level)
        if len(cands) == 1:
            v = cands[0]
            if level == "content" or self.v.get(rel)[0] != v[0]:
                self._view(rel, v)
            return abstract(v, level)
        for i, v in enumerate(cands):
            obs = abstract(v, level)
            c = self.cond_value(rel, p, level, obs)
            if i == len(cands) - 1:
                # the earlier candidates were refuted or excluded: this one is forced
                self.e.add(c)
                ok = True
            else:
                ok = self.e.branch(c)
            if ok:
                if level == "content" or self.v.get(rel)[0] != v[0]:
                    self._view(rel, v)
                return obs
        raise core.PathAbort()

    def _view(self, rel, v):
        parent = os.path.dirname(rel) or "."
        self.v.put(rel, v)
        del parent

    def note_write(self, rel, p, val):
        k = len(self.events)
        prev = self.own.setdefault(rel, [])
        if rel in self.tb.rd or rel in self.tb.wr:
            if prev and prev[-1][3] is not None:
                self.e.add(prev[-1][3] == p)
                self.live_nxt = [x for x in self.live_nxt if not x.eq(prev[-1][3])]
            nx = z3.Int(f"nxt{k}_{len(self.live_nxt)}_{rel}")
            self.e.add(nx >= p)
            self.live_nxt.append(nx)
            for j, level, obs in self.tb.rd.get(rel, ()):
                if abstract(val, level) != obs:
                    _b, j0 = self._b_base(rel, j)
                    self.e.add(z3.Implies(z3.And(p <= j, p > j0, self.cut > j), nx <= j))
            prev.append((k, p, val, nx))
        else:
            prev.append((k, p, val, None))

    def emit(self, ev):
        self.events.append(ev)
        if len(self.events) > 4000:
            raise core.BudgetExceeded("event cap 4000")

    # ---- handler interface (absolute paths)
    def read(self, path, level):
        rel = self.v.rel(path)
        p = self.tick() if self.conflicts([rel]) else None
        obs = self.resolve(rel, level, p)
        self.emit(Ev(reads=[(rel, level, obs)], what="read-" + level))

    def children(self, rel):
        pre = "" if rel == "." else rel + "/"
        names = set()
        for src in (self.init, self.own, self.tb.wr):
            for r in src:
                if r.startswith(pre) and r != rel and r != "." and "/" not in r[len(pre):]:
                    names.add(r)
        return sorted(names)

    def listdir(self, path):
        rel = self.v.rel(path)
        ch = self.children(rel)
        p = self.tick() if self.conflicts([rel, *ch]) else None
        rds = [(rel, "kind", self.resolve(rel, "kind", p))]
        for c in ch:
            rds.append((c, "kind", self.resolve(c, "kind", p)))
        self.emit(Ev(reads=rds, what="listdir"))

    def create(self, path, do, dirs=True, excl=True):
        """mkdir, or O_CREAT without O_TRUNC: atomic test-and-create."""
        rel = self.v.rel(path)
        parent = os.path.dirname(rel) or "."
        p = self.tick() if self.conflicts([rel, parent], [rel]) else None
        rds = [(parent, "kind", self.resolve(parent, "kind", p))] if rel != "." else []
        ob = self.resolve(rel, "kind", p)
        rds.append((rel, "kind", ob))
        try:
            r = do()
        except OSError:
            self.emit(Ev(reads=rds, what="create-failed"))
            raise
        if ob == ("absent",):
            val = self.v.get(rel)
            self.note_write(rel, p, val)
            self.emit(Ev(reads=rds, writes=[(rel, val)], what="create"))
        else:
            self.emit(Ev(reads=rds, what="create-existing"))
        return r

    def write_begin(self, path, append, excl):
        rel = self.v.rel(path)
        parent = os.path.dirname(rel) or "."
        if append and not excl and all(v in (ABSENT, ("file", b"")) for v in
                                       [self.init.get(rel, ABSENT)] + [v for _j, v in self.tb.wr.get(rel, ())] +
                                       [o[2] for o in self.own.get(rel, ())]):
            try:
                self.ensure(path, False, None)
            except FileNotFoundError:
                pass    # the real open fails the same way
            return
        if append or excl:
            p = self.tick() if self.conflicts([rel, parent], [rel]) else None
            rds = [(parent, "kind", self.resolve(parent, "kind", p)), (rel, "content" if append else "kind",
                   self.resolve(rel, "content" if append else "kind", p))]
            if append:
                rds[1] = (rel, "kind", (rds[1][2][0],))
            if rds[0][2] == ("absent",) or (excl and rds[1][2] != ("absent",)):
                self.emit(Ev(reads=rds, what="open-failed"))
                return
            if rds[1][2] == ("absent",):
                self.note_write(rel, p, ("file", b""))
                self.emit(Ev(reads=rds, writes=[(rel, ("file", b""))], what="open-create"))
            else:
                self.emit(Ev(reads=rds, what="open-append"))
            return
        p = self.tick() if self.conflicts([parent], [rel]) else None
        par = self.resolve(parent, "kind", p)
        if par == ("absent",):
            self.emit(Ev(reads=[(parent, "kind", par)], what="open-failed"))
            return
        if self.v.get(rel) == DIR:
            return
        self.note_write(rel, p, ("file", b""))
        self.emit(Ev(reads=[(parent, "kind", par)], writes=[(rel, ("file", b""))], what="open-trunc"))

    def write_end(self, path, closer):
        rel = self.v.rel(path)
        p = self.tick() if self.conflicts((), [rel]) else None
        closer()
        val = self.v.get(rel)
        self.note_write(rel, p, val)
        self.emit(Ev(writes=[(rel, val)], what="write"))

    def remove(self, path, do):
        rel = self.v.rel(path)
        p = self.tick() if self.conflicts([rel], [rel]) else None
        ob = self.resolve(rel, "kind", p)
        try:
            do()
        except OSError:
            self.emit(Ev(reads=[(rel, "kind", ob)], what="remove-failed"))
            raise
        self.note_write(rel, p, ABSENT)
        self.emit(Ev(reads=[(rel, "kind", ob)], writes=[(rel, ABSENT)], what="remove"))

    def rename(self, a, b, do):
        ra, rb = self.v.rel(a), self.v.rel(b)
        p = self.tick() if self.conflicts([ra], [ra, rb]) else None
        if ra in self.tb.wr:
            self.resolve(ra, "content", p)
        oa = self.resolve(ra, "kind", p)
        try:
            do()
        except OSError:
            self.emit(Ev(reads=[(ra, "kind", oa)], what="rename-failed"))
            raise
        val = self.v.get(rb)
        self.note_write(ra, p, ABSENT)
        self.note_write(rb, p, val)
        self.emit(Ev(reads=[(ra, "kind", oa)], writes=[(ra, ABSENT), (rb, val)], what="rename"))

    def lock(self, path, fd, flags):
        rel = self.v.rel(path)
        if rel in self.open_locks:
            self.emit(Ev(what="lock-busy-self"))
            return False   # a second handle of the same process: never granted
        if rel in self.tb.lockacq:
            p = self.tick()
            for L1, p1 in self.open_locks.items():
                for j in self.tb.lockacq.get(L1, ()):
                    if any(l < j <= u for l, u in self.tb.locks.get(rel, ())) and self.e.query(
                            p == j, p1 <= j, self.cut >= j) == z3.sat:
                        self.on_deadlock(self.schedule(self.e.solver.model(), j)[0], L1, rel)
            for l, u in self.tb.locks.get(rel, ()):
                free = [p <= l, p > u]
                if self.crash:
                    free.append(z3.And(p == self.cut, self.cut < self.n))
                self.e.add(z3.Or(*free))
            if self.e.query() == z3.unsat:
                raise core.PathAbort()
            self.open_locks[rel] = p
        else:
            self.open_locks[rel] = self.last_p
        self.emit(Ev(lock=("L", rel), what="lock"))
        return True

    def unlock(self, path, fd):
        rel = self.v.rel(path)
        p1 = self.open_locks.pop(rel, None)
        if p1 is not None and rel in self.tb.lockacq:
            p = self.tick()
            for j in self.tb.lockacq[rel]:
                self.e.add(z3.Or(p1 > j, p <= j, self.cut <= j))
        self.emit(Ev(lock=("U", rel), what="unlock"))

    def mark(self, *m):
        self.emit(Ev(mark=tuple(m), what="mark"))

    def finish(self):
        """A makes no further writes."""
        for nx in self.live_nxt:
            self.e.add(nx == self.n + 1)
        self.live_nxt = []

    def barrier_b_done(self, crashed):
        """From here on all of B that ever happens has happened."""
        p = self.tick()
        self.e.add(p == self.cut)
        if not crashed:
            self.e.add(self.cut == self.n)
        if self.e.query() == z3.unsat:
            raise core.PathAbort()
        self.final = z3.IntVal(self.n) if not crashed else self.cut

    def schedule(self, m, cut=None):
        """model -> (list of 'A'/'B' in global order, cut)."""
        if cut is None:
            cut = m.eval(self.cut, model_completion=True).as_long()
        pos = {k: m.eval(p, model_completion=True).as_long() for k, p in self.ps}
        out, done, cur = [], 0, cut if self.after else 0
        for k in range(len(self.events)):
            cur = max(cur, pos.get(k, cur))
            while done < cur:
                out.append("B")
                done += 1
            out.append("A")
        while done < cut:
            out.append("B")
            done += 1
        return out, cut


# ------------------------------------------------------------------ running programs


CUR = None  # active handler, for marks from harness code


def mark(*m):
    if CUR is not None:
        CUR.mark(*m)


class DetClock:
    def __init__(self, base):
        self.t = base

    def time(self):
        self.t += 1.0
        return self.t
    monotonic = time
    perf_counter = time
    process_time = time

    def sleep(self, s):
        return None


class DetUuid:
    def __init__(self, who):
        self.who, self.n = who, {}

    def __call__(self):
        """unique per worker and draw; numbered per innermost held lock, so that the names in one
        resource do not depend on what happened to the others"""
        import uuid
        held = list(getattr(CUR, "open_locks", None) or [""])[-1]
        self.n[held] = self.n.get(held, 0) + 1
        h = hashlib.sha256(f"{self.who}|{held}|{self.n[held]}".encode()).hexdigest()
        return uuid.UUID(hex=h[:32])


def fresh_process(who):
    """What a newly started worker process has in memory."""
    import random
    import numpy as np
    import torch
    seed = 11 if who == "A" else 22
    random.seed(seed)
    np.random.seed(seed)
    torch.manual_seed(seed)
    import neps.runtime as rt
    rt._CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
    rt._WORKER_NEPS_STATE = None


def run_program(prog, who, root, handler, prelude=None):
    """Run worker code; returns outcome dict (exceptions are outcomes)."""
    global CUR
    from . import envshim, hook
    envshim.CLOCK = DetClock(1000.0 if who == "A" else 5000.0)
    hook.UUID4 = DetUuid(who)
    fresh_process(who)
    # the prelude (typically: open the state) runs alone, on the initial storage
    env = () if prelude is None else (prelude(root, who),)
    CUR = handler
    exc = None
    res = None
    try:
        with Interposer(root, handler):
            try:
                res = prog(root, who, *env)
            except Exception as ex:
                import traceback
                exc = f"{type(ex).__name__}: {str(ex)[:300]}"
                tb = traceback.extract_tb(ex.__traceback__)
                c = ex.__cause__ or ex.__context__
                exc += " @ " + " < ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-int(os.environ.get("SYMX_TB","4")):]))
                if c is not None:
                    exc += f" [cause {type(c).__name__}: {str(c)[:200]}]"
                exc = exc.replace(root, "<root>")
    finally:
        CUR = None
        envshim.CLOCK = None
        hook.UUID4 = None
    marks = [e.mark for e in handler.events if e.mark]
    return {"exc": exc, "res": res, "marks": marks}


class Scenario:
    """init: builder(root) of the initial storage; progs: {'A': fn, 'B': fn} run by fresh processes;
    judge(J): assertions; audit(root) -> value run after both are over (optional)."""

    def __init__(self, name, init, prog_a, prog_b, judge, audit=None, crash=False, complete=True,
                 prelude=None, after=False):
        """after: A starts only when B is over (finished or dead) -- crash and resume."""
        self.prelude, self.after = prelude, after
        self.name, self.init, self.judge, self.audit = name, init, judge, audit
        self.prog = {"A": prog_a, "B": prog_b}
        self.crash, self.complete = crash, complete


class J:
    """What the judge sees."""

    def __init__(self, a, b, audit, done, b_complete, check, crashed=False):
        self.a, self.b, self.audit = a, b, audit
        self._done, self.b_complete, self._check, self.crashed = done, b_complete, check, crashed

    def b_marks(self, kind):
        """[(mark, executed?)] of B of one kind; executed is a formula or a bool."""
        return [(m, self._done(i)) for i, m in self.b if m[0] == kind]

    def a_marks(self, kind):
        return [m for m in self.a["marks"] if m[0] == kind]

    def check(self, cond, label, detail=None):
        self._check(cond, label, detail)


def snapshot_of(build):
    from . import envshim, hook
    d = tempfile.mkdtemp(prefix="symx_init_")
    root = os.path.join(os.path.realpath(d), "r")
    try:
        envshim.CLOCK = DetClock(100.0)
        hook.UUID4 = DetUuid("I")
        fresh_process("I")
        build(root)
        return View(root).snapshot()
    finally:
        envshim.CLOCK = None
        hook.UUID4 = None
        shutil.rmtree(d, ignore_errors=True)


def explore_pair(sc, who, init, tb, root, budget, phase, cuts=None):
    """Run ``who``'s program against trace tb of the other.  phase 'gen': collect traces (B paused
    anywhere); phase 'judge': check assertions."""
    view = View(root)
    traces = {}
    viols = []
    eng = core.Engine(query_timeout_ms=60000, time_budget=budget, want=4)
    state = {}

    def fn(ctx):
        view.restore(init)
        h = SymHandler(eng, view, init, tb, sc.crash)
        state["h"] = h

        def on_deadlock(sched, l1, l2):
            viols.append(dict(label="deadlock", detail=f"this worker holds {l1} and waits for {l2}, the other vice versa",
                              schedule="".join(sched), cut=h.n, n_b=h.n, crash=False, who=who, b_marks=[]))
        h.on_deadlock = on_deadlock
        if cuts is not None:
            eng.add(h.cut >= cuts[0], h.cut <= cuts[1])
        if sc.after and tb is not EMPTY:
            h.final, h.after = h.cut, True
            h.last_p = h.cut
        out = run_program(sc.prog[who], who, root, h, sc.prelude)
        worker_events = list(h.events)
        if phase == "gen":
            t = Trace(worker_events, out)
            traces[t.id] = t
            return
        outs = [out]
        audit = None
        if sc.audit is not None:
            if h.final is None:
                h.barrier_b_done(sc.crash)
            o2 = run_program(sc.audit, who, root, h)
            audit = o2
        h.finish()
        if sc.complete and not sc.crash:
            eng.add(h.cut == h.n)
        if eng.query() == z3.unsat:
            raise core.PathAbort()
        bm = [(i, e.mark) for i, e in enumerate(tb.events) if e.mark]

        def done(i):
            return core.mkbool(h.cut > i)

        def check(cond, label, detail=None):
            eng.stats.asserts += 1
            if core.is_sym(cond) or z3.is_expr(cond):
                neg = z3.Not(core.zbool(cond))
            else:
                if cond:
                    eng.stats.unsat_final += 1
                    return
                neg = z3.BoolVal(True)
            r = eng.query(neg)
            if r == z3.unsat:
                eng.stats.unsat_final += 1
                return
            if r != z3.sat:
                eng.gaps.append((label, "solver unknown"))
                return
            viols.append(dict(witness(h, eng.solver.model(), len(worker_events), bm), label=label,
                              detail=str(detail)[:1500]))
        sc.judge(J(outs[0], bm, audit, done, core.mkbool(h.cut == h.n), check, sc.crash))
        if len(wit) < 1 and eng.query() == z3.sat:
            wit.append(witness(h, eng.solver.model(), len(worker_events), bm))
        eng.covered["judged"] = eng.covered.get("judged", 0) + 1
        for m in out["marks"]:
            kk = "A:" + str(m[0])
            eng.covered[kk] = eng.covered.get(kk, 0) + 1
        if out["exc"]:
            eng.covered["A:exc"] = eng.covered.get("A:exc", 0) + 1

    wit = []

    def witness(h, m, na, bm):
        sched, cut = h.schedule(m)
        # audit events are not part of the schedule
        s2, ca = [], 0
        for c in sched:
            if c == "A":
                if ca >= na:
                    continue
                ca += 1
            s2.append(c)
        return dict(schedule="".join(s2), cut=cut, n_b=h.n, crash=sc.crash, who=who, b_marks=bm)
    eng.explore(fn)
    for v in eng.violations:   # engine-level exception (harness or interposer fault)
        viols.append(dict(label="engine", detail=v.detail, schedule="", cut=0, n_b=0, crash=sc.crash, who=who,
                          engine=True))
    return dict(traces=list(traces.values()), viols=viols, stats=eng.stats.__dict__, covered=eng.covered,
                incomplete=eng.incomplete, gaps=eng.gaps, wit=wit)


_POOL_SC = None


def _pool_job(args):
    sci, who, init, tb, budget, phase, *cuts = args
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    base = tempfile.mkdtemp(prefix="symx_v_")
    try:
        return explore_pair(_POOL_SC[sci], who, init, tb, os.path.join(os.path.realpath(base), "r"),
                            max(0.5, budget - time.time()), phase, *cuts)
    except BaseException:
        import traceback
        return dict(traces=[], viols=[dict(label="engine", detail=traceback.format_exc(limit=-8), engine=True,
                    schedule="", cut=0, n_b=0, crash=False, who=who)], stats={}, covered={}, incomplete="error", gaps=[])
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run_scenarios(scs, tier, budget, jobs=7, max_traces=400):
    """-> result dict for the runner."""
    global _POOL_SC
    _POOL_SC = scs
    t0 = time.time()
    deadline = t0 + budget
    stats, covered, gaps, viols, info = {}, {}, [], [], []
    incomplete = None
    samples, wits = [], []
    inits = [snapshot_of(sc.init) for sc in scs]
    pool = mp.get_context("fork").Pool(jobs)

    def merge(r, tag):
        nonlocal incomplete
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["covered"].items():
            covered[f"{tag}:{k}"] = covered.get(f"{tag}:{k}", 0) + v
        gaps.extend(r["gaps"])
        if r["incomplete"] and not r["viols"]:
            incomplete = f"{tag}: {r['incomplete']}"
    try:
        for i, sc in enumerate(scs):
            known = {"A": {}, "B": {}}
            other = {"A": "B", "B": "A"}
            todo = [("A", EMPTY), ("B", EMPTY)]
            if sc.after:
                todo = [("B", EMPTY)]
            judged = {"A": [], "B": []}
            rounds = 0
            while todo and time.time() < deadline:
                rounds += 1
                rs = pool.map(_pool_job, [(i, w, inits[i], tb, deadline, "gen")
                                          for w, tb in todo], chunksize=1)
                nxt = []
                for (w, tb), r in zip(todo, rs):
                    merge(r, sc.name)
                    for v in r["viols"]:
                        viols.append(dict(v, scenario=sc.name))
                    for t in r["traces"]:
                        if t.id not in known[w]:
                            known[w][t.id] = t
                            nxt.append((other[w], t))
                todo = nxt if not sc.after else []
                if len(known["A"]) + len(known["B"]) > max_traces:
                    incomplete = f"{sc.name}: trace cap {max_traces}"
                    break
                if any(v.get("engine") for v in viols):
                    break
            if todo:
                incomplete = incomplete or f"{sc.name}: time budget"
            js = [("A", t) for t in known["B"].values()]
            if sc.prog["A"] is not sc.prog["B"] and not sc.after:
                js += [("B", t) for t in known["A"].values()] if not getattr(sc, "a_only", False) else []
            js = [(w, tb, None) for w, tb in js]
            if sc.after:
                js = [(w, tb, (lo, min(lo + 11, len(tb.events)))) for w, tb, _ in js
                      for lo in range(0, len(tb.events) + 1, 12)]
            rs = pool.map(_pool_job, [(i, w, inits[i], tb, deadline, "judge", c)
                                      for w, tb, c in js], chunksize=1)
            ws = [dict(x, scenario=sc.name) for r in rs for x in r.get("wit", ())]
            wits.extend(ws[i] for i in sorted({0, len(ws) // 2, len(ws) - 1}) if 0 <= i < len(ws))
            for (w, tb, c), r in zip(js, rs):
                merge(r, sc.name)
                for v in r["viols"]:
                    viols.append(dict(v, scenario=sc.name))
            info.append(dict(scenario=sc.name, traces_A=len(known["A"]), traces_B=len(known["B"]), rounds=rounds,
                             max_events=max([len(t.events) for d in known.values() for t in d.values()] or [0]),
                             wall=round(time.time() - t0, 1)))
            ex = next(iter(known["A"].values()), None)
            if ex is not None:
                samples.append({sc.name: [str(e.short())[:160] for e in ex.events[:12]], "events": len(ex.events)})
    finally:
        pool.terminate()
    out, seen = [], {}
    for v in viols:
        key = (v["scenario"], v["label"], v["who"])
        if seen.get(key, 0) >= 3:
            continue
        seen[key] = seen.get(key, 0) + 1
        kind = "exception" if v.get("engine") else "assertion"
        out.append(dict(label=v["label"], inputs={}, kind=kind, detail=v["detail"],
                        extra={k: v[k] for k in ("scenario", "schedule", "cut", "n_b", "crash", "who", "b_marks", "label") if k in v}))
    return dict(stats=stats, covered=covered, gaps=gaps, incomplete=incomplete, samples=samples, violations=out,
                info=info, witnesses=wits[:6])


# ------------------------------------------------------------------ replay with real processes


class GateHandler:
    """Real calls, one at a time, when the controller says so."""

    def __init__(self, rfd, wfd):
        self.r, self.w = rfd, wfd
        self.events = []
        self.free = rfd is None
        self.held = []

    def gate(self, ev):
        self.events.append(ev)
        if self.free:
            return
        os.write(self.w, b"?")
        c = os.read(self.r, 1)
        if c == b"F":
            self.free = True
        elif c == b"" or c == b"K":
            os._exit(9)

    def read(self, path, level): self.gate(Ev())
    def listdir(self, path): self.gate(Ev())

    def create(self, path, do, dirs=True, excl=True):
        self.gate(Ev())
        return do()

    def ensure(self, path, isdir, do):
        self.gate(Ev())
        try:
            do()
        except FileExistsError:
            if not os.path.isdir(path):
                raise

    def write_begin(self, path, append, excl): self.gate(Ev())

    def write_end(self, path, closer):
        self.gate(Ev())
        closer()

    def remove(self, path, do):
        self.gate(Ev())
        return do()

    def rename(self, a, b, do):
        self.gate(Ev())
        return do()

    def lock(self, path, fd, flags):
        self.gate(Ev())
        if path in self.held:
            return False
        try:
            self.ip.saved_flock(fd, flags)
        except OSError:
            return False
        self.held.append(path)
        return True

    def unlock(self, path, fd):
        import fcntl
        self.gate(Ev())
        if path in self.held:
            self.held.remove(path)
        try:
            self.ip.saved_flock(fd, fcntl.LOCK_UN)
        except OSError:
            pass

    def mark(self, *m):
        self.gate(Ev(mark=tuple(m)))


def _worker_proc(sc, who, root, rfd, wfd, outpath):
    """child: real code, real files, gated."""
    global CUR
    import pickle
    h = GateHandler(rfd, wfd)
    fresh_process(who)
    exc, res = None, None
    env = ()
    if sc.prelude is not None and who in ("A", "B"):
        env = (sc.prelude(root, who),)
    CUR = h
    ip = Interposer(root, h)
    h.ip = ip
    with ip:
        try:
            res = sc.prog[who](root, who, *env) if who in ("A", "B") else sc.audit(root, "A")
        except Exception as ex:
            import traceback
            c = ex.__cause__ or ex.__context__
            exc = f"{type(ex).__name__}: {str(ex)[:300]}" + (f" [cause {type(c).__name__}: {str(c)[:300]}]" if c else "")
            exc += "\n" + traceback.format_exc(limit=-4)
    CUR = None
    out = {"exc": exc, "res": res, "marks": [e.mark for e in h.events if e.mark], "n": len(h.events)}
    with open(outpath, "wb") as f:
        pickle.dump(out, f)
    if wfd is not None:
        os.write(wfd, b"!")
    os._exit(0)


def replay_schedule(sc, x, timeout=60.0):
    """Drive two real processes through the counterexample schedule."""
    import pickle
    import select
    base = tempfile.mkdtemp(prefix="symx_r_")
    root = os.path.join(os.path.realpath(base), "r")
    procs = {}
    other = "B" if x["who"] == "A" else "A"
    role = {"A": x["who"], "B": other}      # schedule letters -> program
    try:
        import random
        import numpy as np
        import torch
        fresh_process("I")
        View(root).restore(snapshot_of(sc.init))
        for w in ("A", "B"):
            c2p_r, c2p_w = os.pipe()
            p2c_r, p2c_w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(c2p_r)
                os.close(p2c_w)
                for q in procs.values():
                    os.close(q["w"])
                    os.close(q["r"])
                try:
                    _worker_proc(sc, role[w], root, p2c_r, c2p_w, os.path.join(base, w + ".out"))
                finally:
                    os._exit(7)
            os.close(c2p_w)
            os.close(p2c_r)
            procs[w] = dict(pid=pid, r=c2p_r, w=p2c_w, waiting=False, done=False, n=0)

        def wait_ready(w, t):
            p = procs[w]
            if p["done"] or p["waiting"]:
                return True
            r, _, _ = select.select([p["r"]], [], [], t)
            if not r:
                return False
            c = os.read(p["r"], 1)
            if c == b"?":
                p["waiting"] = True
            else:
                p["done"] = True
            return True

        def go(w):
            p = procs[w]
            os.write(p["w"], b"g")
            p["waiting"] = False
            p["n"] += 1
        diverged = None
        for w in ("A", "B"):
            wait_ready(w, timeout)
        for i, w in enumerate(x["schedule"]):
            if not wait_ready(w, timeout):
                diverged = f"step {i}: {w} not ready"
                break
            if procs[w]["done"]:
                diverged = f"step {i}: {w} already finished"
                break
            go(w)
            if not wait_ready(w, timeout):
                diverged = f"step {i}: {w} did not come back"
                break
        b = procs["B"]
        b_marks_done = None
        if x["crash"] and x["cut"] < x["n_b"] and not b["done"]:
            os.kill(b["pid"], 9)
            os.waitpid(b["pid"], 0)
            b["dead"] = True
        outs = {}
        for w in ("A", "B"):
            p = procs[w]
            if p.get("dead"):
                continue
            if not p["done"]:
                if not x["crash"] and w == "B" and x["cut"] < x["n_b"]:
                    pass
                try:
                    os.write(p["w"], b"F")
                except OSError:
                    pass
        end = time.time() + timeout
        for w in ("A", "B"):
            p = procs[w]
            if p.get("dead"):
                continue
            while time.time() < end:
                q, st = os.waitpid(p["pid"], os.WNOHANG)
                if q:
                    p["reaped"] = True
                    break
                time.sleep(0.02)
            f = os.path.join(base, w + ".out")
            if os.path.exists(f):
                outs[w] = pickle.load(R_OPEN(f, "rb"))
        audit = None
        if sc.audit is not None:
            pid = os.fork()
            if pid == 0:
                try:
                    _worker_proc(sc, "audit", root, None, None, os.path.join(base, "audit.out"))
                finally:
                    os._exit(7)
            os.waitpid(pid, 0)
            f = os.path.join(base, "audit.out")
            if os.path.exists(f):
                audit = pickle.load(R_OPEN(f, "rb"))
        if "A" not in outs:
            return {"result": "error", "detail": f"worker A gave no outcome; {diverged}"}
        crashed = bool(b.get("dead"))
        # marks of B: from its outcome, or re-derived from the trace prefix when it was killed
        if crashed:
            bm = [tuple(m) if isinstance(m, list) else m for m in x.get("b_marks", [])]
            bmarks = [(i, tuple(m)) for i, m in bm]
            done = lambda i: i < x["cut"]  # noqa: E731
        else:
            bmarks = [(i, m) for i, m in enumerate(outs.get("B", {"marks": []})["marks"])]
            done = lambda i: True  # noqa: E731
        fails = []

        def check(cond, label, detail=None):
            if not cond:
                fails.append((label, str(detail)[:1500]))
        sc.judge(J(outs["A"], bmarks, audit, done, not crashed, check, sc.crash))
        if fails:
            hit = next((f for f in fails if f[0] == x.get("label")), fails[0])
            return {"result": "fail", "label": hit[0], "detail": hit[1] + (f" ({diverged})" if diverged else "")}
        return {"result": "diverged" if diverged else "pass", "detail": f"diverged={diverged}"}
    finally:
        for p in procs.values():
            for s in ("r", "w"):
                try:
                    os.close(p[s])
                except OSError:
                    pass
            if not p.get("dead") and not p.get("reaped"):
                try:
                    os.kill(p["pid"], 9)
                    os.waitpid(p["pid"], 0)
                except OSError:
                    pass
        shutil.rmtree(base, ignore_errors=True)
