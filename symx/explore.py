"""Exploration of one job (harness x configuration) and the parallel driver."""
from __future__ import annotations

import multiprocessing as mp
import os
import queue as _q
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import core, harness as H


def zval(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_bool(e):
        return bool(z3.is_true(v))
    q = core.const_value(v)
    if q is None:
        return "0"
    if z3.is_int(e):
        return int(q)
    if isinstance(q, Fraction):
        return "%d/%d" % (q.numerator, q.denominator)
    return str(q)


def script_of(ctx, m):
    def dv(d):
        if isinstance(d, tuple):
            return list(d)
        if isinstance(d, list):
            return [dv(x) for x in d]
        if isinstance(d, z3.ExprRef):
            v = zval(m, d)
            return float(Fraction(v)) if isinstance(v, str) else v
        return d
    return {"inputs": {n: zval(m, c) for n, c in ctx.inputs}, "draws": [dv(d) for d in ctx.draws]}


def observed_of(ctx, m):
    from . import array
    out = []
    for name, v in ctx.observed:
        vals = []
        for x in (array.to_obj(v).reshape(-1) if hasattr(v, "shape") and v.shape != () or isinstance(v, (list, tuple)) else [core.pyv(v)]):
            if core.is_sym(x):
                q = zval(m, x.e)
                vals.append(float(Fraction(q)) if isinstance(q, str) else float(q))
            elif x is None:
                vals.append(None)
            else:
                vals.append(float(x))
        out.append([name, vals])
    return out


def target_gone(ex):
    """the harness itself could not reach the function it drives (renamed, moved, other signature)"""
    tb = ex.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    here = os.sep + "props" + os.sep in f
    if isinstance(ex, ImportError):
        return "pymoo" in str(ex) and (here or "importlib" in f)
    if not here:
        return False
    if isinstance(ex, AttributeError):
        return str(ex).startswith("module 'pymoo") or str(ex).startswith("type object")
    return isinstance(ex, TypeError) and "argument" in str(ex) and "()" in str(ex)


def run_path(h, cfg, prefix, stats, want_model):
    """returns (status, payload, ctx); status in ok / infeasible / violation / error"""
    c = core.Ctx(prefix, stats, timeout_ms=h.timeout_ms, max_decisions=h.max_decisions)
    c.resolve = h.resolve
    c.approx = h.approx
    core.set_ctx(c)
    from . import rng
    rng.reset()
    S = H.SymS(c)
    try:
        p0 = stats.props
        try:
            h.fn(S, **cfg)
        except core.EngineSignal:
            raise
        except Exception as ex:  # noqa: BLE001
            if target_gone(ex):
                return "skip", "%s: %s" % (type(ex).__name__, str(ex)[:200]), c
            c.flush()
            m = c.get_model()
            tb = traceback.format_exc(limit=-6)
            if m is None:
                raise core.Inconclusive("exception on a path of unknown feasibility: %r" % ex)
            return "violation", ("raised %s: %s" % (type(ex).__name__, str(ex)[:200]), script_of(c, c.best_model()), tb), c
        c.flush()
        if c.pos < len(c.prefix):
            raise core.Inconclusive("non-deterministic re-execution (path ended early)")
        stats.paths += 1
        pay = None
        if want_model:
            m = c.best_model()
            if m is not None:
                pay = (script_of(c, m), None if c.used_uf else observed_of(c, m), stats.props - p0)
        return "ok", pay, c
    except core.Infeasible:
        return "infeasible", None, c
    except core.Violation as v:
        return "violation", (v.label, script_of(c, v.model), ""), c
    except core.EngineSignal as ex:
        return "error", "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc(limit=-4)), c
    finally:
        core.set_ctx(None)


def explore_slice(h, cfg, stack, slice_s, max_models):
    """DFS from the prefixes in `stack`, for about slice_s seconds"""
    stats = core.Stats()
    t0 = time.perf_counter()
    viol, errs, models = [], [], []
    depth = 0
    while stack:
        prefix = stack.pop()
        want = len(models) < max_models and (stats.paths % 17 == 0)
        st, pay, c = run_path(h, cfg, prefix, stats, want)
        depth = max(depth, len(c.trace))
        stack.extend(c.pending)
        if st == "ok" and pay is not None:
            models.append(pay)
        elif st == "violation":
            viol.append(pay)
            if len(viol) >= 3:
                break
        elif st == "skip":
            return {"stats": stats.as_dict(), "viol": [], "errs": [], "skip": [pay], "models": [], "left": [], "depth": 0, "t": time.perf_counter() - t0}
        elif st == "error":
            errs.append(pay)
            if len(errs) >= 2:
                break
        if time.perf_counter() - t0 > slice_s:
            break
    return {"stats": stats.as_dict(), "viol": viol, "errs": errs, "models": models, "left": stack, "depth": depth, "t": time.perf_counter() - t0}


def _worker(jobs, inq, outq):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:  # noqa: BLE001
        pass
    sys.setrecursionlimit(20000)
    from . import patch
    while True:
        t = inq.get()
        if t is None:
            return
        ji, stack, slice_s, mm = t
        h, cfg = jobs[ji]
        try:
            patch.install()
            r = explore_slice(h, cfg, stack, slice_s, mm)
        except BaseException as ex:  # noqa: BLE001
            r = {"stats": core.Stats().as_dict(), "viol": [], "errs": ["worker: " + repr(ex) + traceback.format_exc(limit=-5)], "models": [],
                 "left": [], "depth": 0, "t": 0}
        outq.put((ji, r))


def drive(jobs, nproc=None, budget_s=700, slice_s=1.5, log=None, stop_on_violation=True):
    """explore all jobs; returns per-job results"""
    nproc = nproc or min(8, os.cpu_count() or 1)
    ctxm = mp.get_context("fork")
    inq, outq = ctxm.Queue(), ctxm.Queue()
    procs = [ctxm.Process(target=_worker, args=(jobs, inq, outq), daemon=True) for _ in range(nproc)]
    for p in procs:
        p.start()
    res = [{"stats": core.Stats().as_dict(), "viol": [], "errs": [], "models": [], "depth": 0, "done": False, "t": 0.0} for _ in jobs]
    backlog = [(ji, [[]]) for ji in range(len(jobs))][::-1]
    pend = [1] * len(jobs)
    out = 0
    t0 = time.perf_counter()
    dead = set()
    timed_out = False
    grace = 60
    while backlog or out:
        while backlog and out < nproc + 2 and not timed_out:
            ji, stack = backlog.pop()
            if ji in dead:
                pend[ji] -= 1
                continue
            # split big stacks so that idle workers get work
            if len(stack) > 1 and out + len(backlog) < nproc:
                k = min(len(stack), nproc)
                chunks = [stack[i::k] for i in range(k)]
                pend[ji] += len(chunks) - 1
                stack = chunks[0]
                for ch in chunks[1:]:
                    backlog.append((ji, ch))
            mm = 2 if len(res[ji]["models"]) < 4 else 0
            inq.put((ji, stack, slice_s if res[ji]["stats"]["paths"] else min(slice_s, 0.4), mm))
            out += 1
        if timed_out and not out:
            break
        try:
            ji, r = outq.get(timeout=5)
        except _q.Empty:
            if any(not p.is_alive() for p in procs):
                for j in range(len(jobs)):
                    if pend[j] > 0:
                        res[j]["errs"].append("a worker process died")
                break
            if time.perf_counter() - t0 > budget_s:
                timed_out = True
                if time.perf_counter() - t0 > budget_s + grace:
                    break
            continue
        out -= 1
        R = res[ji]
        for k, v in r["stats"].items():
            R["stats"][k] += v
        R["viol"] += r["viol"]
        if r["viol"] and grace == 60:
            # the remaining time is limited once there is a counterexample
            grace, budget_s = 20, min(budget_s, time.perf_counter() - t0 + 150)
        R["errs"] += r["errs"]
        if r.get("skip"):
            R["skip"] = r["skip"]
            dead.add(ji)
        R["models"] += r["models"]
        R["depth"] = max(R["depth"], r["depth"])
        R["t"] += r["t"]
        pend[ji] -= 1
        if (r["viol"] and stop_on_violation and len(R["viol"]) >= 3) or len(R["errs"]) >= 2:
            dead.add(ji)
        elif r["left"] and ji not in dead:
            backlog.append((ji, r["left"]))
            pend[ji] += 1
        if time.perf_counter() - t0 > budget_s:
            timed_out = True
    for ji in range(len(jobs)):
        if pend[ji] == 0 and ji not in dead:
            res[ji]["done"] = True
        elif not res[ji]["viol"] and not res[ji]["errs"] and not res[ji].get("skip"):
            res[ji]["errs"].append("time budget exhausted before the bounded space was covered")
    for _ in procs:
        inq.put(None)
    for p in procs:
        p.join(timeout=0.5)
        if p.is_alive():
            p.terminate()
    return res
