"""Runs the harnesses of one property: symbolic exploration, replay, evidence, verdict."""
from __future__ import annotations

import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class H:
    """One harness: ``fn(ctx)`` plus what it encodes and its bounds."""

    def __init__(self, fn, bounds, functions, name=None, covers=(), thorough_only=False, budget=None,
                 assumptions=(), sym_alloc=False, custom=None, query_timeout_ms=20000, want=6, vary=None):
        self.fn, self.bounds, self.functions = fn, bounds, list(functions)
        self.name = name or fn.__name__
        self.covers = list(covers)
        self.thorough_only = thorough_only
        self.budget = budget
        self.assumptions = list(assumptions)
        self.sym_alloc = sym_alloc
        self.custom = custom
        self.query_timeout_ms = query_timeout_ms
        self.want = want


def jsonable(x):
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
        return {"__float__": repr(x)}
    return x


def unjson(x):
    if isinstance(x, dict) and "__float__" in x:
        return float(x["__float__"])
    return x


def load_check(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module(f"checks.{pid}")


def _explore_child(pid, hname, tier, budget, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    from . import core
    core_res = {"harness": hname}
    try:
        mod = load_check(pid)
        h = next(x for x in mod.HARNESSES if x.name == hname)
        t0 = time.time()
        if h.custom is not None:
            res = h.custom(tier, budget)
            core_res.update(res)
        else:
            e = core.Engine(query_timeout_ms=h.query_timeout_ms, time_budget=budget, want=h.want)
            e.sym_alloc = h.sym_alloc
            e.tier = tier
            e.explore(h.fn)
            core_res.update(
                stats=e.stats.__dict__, incomplete=e.incomplete, covered=e.covered, gaps=e.gaps,
                samples=e.samples, raw_samples=getattr(e, "raw_samples", []),
                violations=[dict(label=v.label, inputs={k: jsonable(x) for k, x in v.inputs.items()},
                                 kind=v.kind, detail=str(v.detail)[:3000]) for v in e.violations])
        core_res["wall"] = time.time() - t0
        from . import hook
        core_res["modules"] = len(hook.LOADED)
    except BaseException:
        core_res["error"] = traceback.format_exc(limit=-12)
    q.put(core_res)
    q.close()
    q.join_thread()
    os._exit(0)


def replay_main(argv):
    """child: plain (unhooked) package; run harness(es) on concrete inputs."""
    pid, path = argv
    from . import core, hook
    hook.install(symbolic=False)
    import warnings
    warnings.simplefilter("ignore")
    mod = load_check(pid)
    jobs = json.load(open(path))
    out = []
    for j in jobs:
        h = next(x for x in mod.HARNESSES if x.name == j["harness"])
        if hasattr(mod, "REPLAY") and h.custom is not None:
            try:
                out.append(mod.REPLAY(h.name, j))
            except BaseException:
                out.append({"result": "error", "detail": traceback.format_exc(limit=-8)})
            continue
        ctx = core.ConcCtx({k: unjson(v) for k, v in j["inputs"].items()})
        ctx.tier = j.get("tier", "quick")

        class TO(BaseException):
            pass

        def onalarm(*a):
            raise TO()
        signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(60)
        try:
            h.fn(ctx)
            r = {"result": "pass"}
        except core.CheckFailed as ex:
            r = {"result": "fail", "label": ex.label, "detail": str(ex.detail)[:2000]}
        except core.AssumeFailed:
            r = {"result": "assume"}
        except TO:
            r = {"result": "exception", "label": "no-unexpected-exception", "detail": "hang: no result in 60 s"}
        except core.Unreplayable as ex:
            r = {"result": "error", "detail": str(ex)}
        except Exception as ex:
            r = {"result": "exception", "label": "no-unexpected-exception",
                 "detail": f"{type(ex).__name__}: {ex}\n{traceback.format_exc(limit=-6)}", "etype": type(ex).__name__}
        finally:
            signal.alarm(0)
            for u in reversed(ctx.undo):
                try:
                    u()
                except Exception:
                    pass
        r["used"] = {k: jsonable(v) for k, v in list(ctx.used.items())[:200]}
        out.append(r)
    json.dump(out, open(path + ".out", "w"))
    sys.stdout.flush()
    os._exit(0)


def replay(pid, jobs, scratch, timeout=240):
    """jobs: list of {harness, inputs}; returns list of results (None if the child died)."""
    fd, path = tempfile.mkstemp(suffix=".json", dir=scratch)
    os.close(fd)
    json.dump(jobs, open(path, "w"))
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, "run_check.py"), "--replay", pid, path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=os.environ)
        if os.path.exists(path + ".out"):
            return json.load(open(path + ".out"))
        log = p.stdout.decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        log = "timeout"
    if len(jobs) > 1:
        r = []
        for j in jobs:
            r += replay(pid, [j], scratch, timeout=120)
        return r
    return [{"result": "error", "detail": log}]


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def run(pid, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="symx_")
    os.environ.setdefault("MPLCONFIGDIR", scratch)
    os.environ["MPLBACKEND"] = "Agg"
    from . import hook
    total = float(os.environ.get("SYMX_BUDGET", "600" if tier == "quick" else "3000"))
    hook.install(symbolic=True)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    mod = load_check(pid)
    only = os.environ.get("SYMX_ONLY")      # for development: one harness
    harnesses = [h for h in mod.HARNESSES if (tier == "thorough" or not h.thorough_only) and only in (None, h.name)]

    # one forked child per harness, at most 7 at a time
    ctx = mp.get_context("fork")
    results = {}
    pending = list(harnesses)
    live = []
    while pending or live:
        while pending and len(live) < int(os.environ.get("SYMX_JOBS", "7")):
            h = pending.pop(0)
            q = ctx.Queue()
            budget = h.budget or total
            if isinstance(budget, dict):
                budget = budget[tier]
            p = ctx.Process(target=_explore_child, args=(pid, h.name, tier, min(budget, total), q))
            p.start()
            live.append([h, p, q, time.time(), min(budget, total)])
        for it in list(live):
            h, p, q, st, budget = it
            try:
                r = q.get(timeout=0.05)
            except Exception:
                r = None
            if r is not None:
                results[h.name] = r
                p.join(5)
                if p.is_alive():
                    p.kill()
                live.remove(it)
            elif not p.is_alive():
                try:
                    r = q.get(timeout=1)
                    results[h.name] = r
                except Exception:
                    results[h.name] = {"harness": h.name, "error": f"child died, exit {p.exitcode}"}
                live.remove(it)
            elif time.time() - st > budget + 60:
                p.kill()
                results[h.name] = {"harness": h.name, "error": "killed: over budget", "killed": True}
                live.remove(it)

    # replay every counterexample on the plain package; validate witnesses too
    jobs, meta = [], []
    for h in harnesses:
        r = results[h.name]
        for v in r.get("violations", []):
            jobs.append({"harness": h.name, "inputs": v["inputs"], "tier": tier, **({"extra": v["extra"]} if "extra" in v else {})})
            meta.append(("v", h, v))
        for x in r.get("witnesses", []):
            jobs.append({"harness": h.name, "inputs": {}, "tier": tier, "extra": x})
            meta.append(("s", h, {"schedule": x}))
        if h.custom is None:
            for s in r.get("raw_samples", [])[:3]:
                jobs.append({"harness": h.name, "inputs": s, "tier": tier})
                meta.append(("s", h, s))
    outs = replay(pid, jobs, scratch) if jobs else []
    violations, spurious, gaps, validated, nonrepro = [], [], [], 0, []
    for (kind, h, v), o in zip(meta, outs):
        if kind == "s":
            if o["result"] == "pass":
                validated += 1
            elif o["result"] in ("fail", "exception"):
                violations.append((h, {"label": o.get("label"), "inputs": v if "schedule" not in v else {},
                                       **({"extra": v["schedule"]} if "schedule" in v else {}),
                                       "kind": "witness", "detail": ""}, o))
            continue
        if o["result"] in ("fail", "exception"):
            violations.append((h, v, o))
        elif v["kind"] == "exception":
            gaps.append((h, v, o))
        else:
            spurious.append((h, v, o))

    kf = [k for k in known_findings() if k["property"] == pid]
    real, known = [], []
    for h, v, o in violations:
        label = o.get("label") or v["label"]
        m = next((k for k in kf if k["harness"] == h.name and k["label"] == label), None)
        if m is not None:
            known.append((m, h, v, o))
        else:
            real.append((h, v, o))
    seen = set()
    for m, h, v, o in known:
        if m["id"] not in seen:
            seen.add(m["id"])
            print(f"KNOWN-FINDING: property={pid} {m['what']}")

    # evidence
    agg = {}
    for r in results.values():
        for k, x in (r.get("stats") or {}).items():
            agg[k] = agg.get(k, 0) + x
    missing = []
    for h in harnesses:
        for c in h.covers:
            if not (results[h.name].get("covered") or {}).get(c):
                missing.append(f"{h.name}:{c}")
    errors = {h.name: results[h.name]["error"] for h in harnesses if "error" in results[h.name]}
    incompl = {h.name: results[h.name].get("incomplete") for h in harnesses if results[h.name].get("incomplete")}
    allgaps = [g for r in results.values() for g in (r.get("gaps") or [])]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(agg.get("branches", 0)) + int(agg.get("paths", 0)),
            "transitions": int(agg.get("queries", 0)),
            "traces_validated_against_impl": validated,
            "samples": [{"harness": h.name, "witness": s} for h in harnesses
                        for s in (results[h.name].get("samples") or [])[:2]] or ["none"],
            "exhaustive": not incompl and not errors and not gaps and not spurious and not missing and agg.get("unknown", 0) == 0 and agg.get("lossy_paths", 0) == 0,
            "rule": "states = symbolic branch points + completed symbolic paths; transitions = solver queries",
            "paths": int(agg.get("paths", 0)), "solver_queries": int(agg.get("queries", 0)),
            "solver_seconds": round(agg.get("solver_s", 0.0), 3),
            "assertions_checked": int(agg.get("asserts", 0)),
            "assertions_unsat": int(agg.get("unsat_final", 0)),
            "solver_unknown": int(agg.get("unknown", 0)),
            "concretised_paths": int(agg.get("lossy_paths", 0)),
            "harnesses": [{"name": h.name, "bounds": h.bounds, "functions_encoded": h.functions,
                           "wall_s": round(results[h.name].get("wall", 0), 2),
                           "stats": results[h.name].get("stats"),
                           "reached": results[h.name].get("covered"),
                           **({"info": results[h.name]["info"]} if "info" in results[h.name] else {})}
                          for h in harnesses],
            "incomplete": incompl, "unreached": missing,
            "engine_gaps": [f"{h.name}: {v['detail'][:300]}" for h, v, o in gaps] + [str(g) for g in allgaps],
            "not_reproduced": [f"{h.name}: {v['label']} {v['inputs']}"[:400] for h, v, o in spurious],
            "known_findings_observed": sorted(seen),
        },
        "assumptions": sorted({a for h in harnesses for a in h.assumptions} | {
            "Python float is modelled as an exact real; rounding, overflow, NaN and inf are outside unless fed explicitly",
            "CPython, numpy, pandas, torch and the proxies of /verif/symx are trusted; witnesses are replayed on the unmodified package",
        }),
        "wall_s": round(time.time() - t0, 2), "violations": len(real),
    }
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open(os.path.join(evdir, f"{pid}.json"), "w"), indent=1, default=str)

    import shutil
    shutil.rmtree(scratch, ignore_errors=True)

    rc = 0
    if real:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        done = set()
        n = 0
        for h, v, o in real:
            key = (h.name, o.get("label") or v["label"])
            if key in done:
                continue
            done.add(key)
            f = os.path.join(rdir, f"{pid}-{h.name}-{n}.json")
            n += 1
            json.dump([{"harness": h.name, "inputs": v["inputs"], "label": key[1], "tier": tier,
                        **({"extra": v["extra"]} if "extra" in v else {}),
                        "observed": o, "rerun": f"/opt/venv/bin/python /verif/run_check.py --replay {pid} <this file>"}],
                      open(f, "w"), indent=1, default=str)
            print(f"VIOLATION property={pid} replay={f}")
            print(f"  harness={h.name} assertion={key[1]} inputs={json.dumps(v['inputs'], default=str)[:1500]}")
            print(f"  observed: {str(o.get('detail'))[:1200]}")
        rc = 1
    else:
        for h, v, o in gaps:
            print(f"INCONCLUSIVE path in {h.name}: {v['detail'].splitlines()[0][:200]} (replay: {o['result']})")
            if os.environ.get("SYMX_DEBUG"):
                print(v["detail"], v["inputs"], o)
        for g in allgaps:
            print(f"INCONCLUSIVE: {g}")
        for n, why in incompl.items():
            print(f"INCOMPLETE {n}: {why}")
        if agg.get("lossy_paths"):
            print(f"NOTE: {agg['lossy_paths']} path(s) concretised")
        if missing:
            print(f"UNREACHED: {missing}")
        # A counterexample of the encoding that the package itself does not show (an inexact step: rounding, a
        # value fixed at an operation without a model) settles nothing: no alarm, and the evidence is not exhaustive.
        strict = bool(os.environ.get("SYMX_STRICT"))
        for h, v, o in spurious:
            print(f"INCONCLUSIVE SPURIOUS {h.name} {v['label']} inputs={v['inputs']} detail={v['detail'][:300]} replay={str(o)[:800]}")
            rc = 3 if strict else rc
        for n, er in errors.items():
            print(f"ERROR harness {n}:\n{er}")
            rc = 3
        total_covers = sum(len(h.covers) for h in harnesses)
        if missing and not errors and not gaps and not incompl and (strict or 2 * len(missing) > total_covers):
            rc = 3
    print(f"{pid} tier={tier} rc={rc} harnesses={len(harnesses)} paths={agg.get('paths', 0)} "
          f"queries={agg.get('queries', 0)} solver={agg.get('solver_s', 0.0):.1f}s asserts={agg.get('asserts', 0)} "
          f"gaps={len(gaps)} validated={validated} wall={time.time() - t0:.1f}s")
    return rc
