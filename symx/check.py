"""Runs the check of one property.  usage: check.py PID [quick|thorough] [--only NAME] [--list]"""
from __future__ import annotations

import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True


def nearby(script, n=12):
    import random
    from fractions import Fraction
    rnd, out = random.Random(7), []
    for k in range(n):
        inp = {}
        for name, v in script["inputs"].items():
            if isinstance(v, str) and "/" in v:
                f = Fraction(v)
                f += (abs(f) / 2 + Fraction(1, 4)) * Fraction(rnd.randint(-1000, 1000), 1000 if k % 2 else 8000)
                v = "%d/%d" % (f.numerator, f.denominator)
            inp[name] = v
        out.append(dict(script, inputs=inp))
    return out


def batch_replay(cases):
    if not cases:
        return []
    with tempfile.TemporaryDirectory(prefix="symx") as d:
        i, o = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        json.dump(cases, open(i, "w"))
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        p = subprocess.run([sys.executable, os.path.join(ROOT, "symx", "replay.py"), "--batch", i, o], env=env, capture_output=True, text=True, timeout=600)
        if not os.path.exists(o):
            raise RuntimeError("replay process failed: " + p.stderr[-3000:])
        return json.load(open(o))


def close(a, b):
    if a is None or b is None:
        return a is b
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" | ", 1)
                out.append((key.strip(), text.strip()))
    return out


def main():
    t0 = time.perf_counter()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import warnings
    warnings.filterwarnings("ignore")
    import symx  # noqa: F401
    from symx import explore, harness as H, patch
    hs = H.load(pid)
    if only:
        hs = [h for h in hs if only in h.name]
    import numpy as np
    np.seterr(all="ignore")
    patch.install()
    main_h = [h for h in hs if h.expect is None]
    find_h = [h for h in hs if h.expect is not None]
    jobs = [(h, cfg) for h in main_h for cfg in (h.quick if tier == "quick" else h.thorough)]
    budget = float(os.environ.get("SYMX_BUDGET", "600" if tier == "quick" else "20000"))
    res = explore.drive(jobs, budget_s=budget) if jobs else []

    # known findings: the specific history that fails is re-decided on every run
    kf = known_findings(pid)
    fjobs = [(h, cfg) for h in find_h for cfg in h.quick]
    fres = explore.drive(fjobs, budget_s=120) if fjobs else []

    cases, meta = [], []
    for (h, cfg), r in zip(jobs, res):
        for label, script, tb in r["viol"][:6]:
            cases.append({"pid": pid, "harness": h.name, "cfg": cfg, "script": script, "label": label})
            meta.append(("viol", h, cfg, label, tb))
        for script, obs, nprops in r["models"][:4]:
            cases.append({"pid": pid, "harness": h.name, "cfg": cfg, "script": script})
            meta.append(("val", h, cfg, obs, nprops))
    for (h, cfg), r in zip(fjobs, fres):
        for label, script, tb in r["viol"][:3]:
            cases.append({"pid": pid, "harness": h.name, "cfg": cfg, "script": script, "label": label})
            meta.append(("find", h, cfg, label, tb))
    rep = batch_replay(cases)

    # where sin, exp, ... are uninterpreted, the solver's counterexample fixes the terms that differ; nearby inputs are tried on the real code
    near = [(c, m) for c, m, r in zip(cases, meta, rep) if m[0] in ("viol", "find") and m[1].approx and r["status"] not in ("violation",)]
    if near:
        extra = [(dict(c, script=s), m) for c, m in near for s in nearby(c["script"])]
        er = batch_replay([c for c, _ in extra])
        for (c, m), r in zip(extra, er):
            if r["status"] == "violation":
                cases.append(c)
                meta.append(m)
                rep.append(r)

    confirmed, unconfirmed, validated, mism, found = [], [], 0, [], {}
    samples = []
    for c, m, r in zip(cases, meta, rep):
        if m[0] == "viol":
            if r["status"] == "violation":
                c["observed_label"] = r["label"]
                confirmed.append((c, m, r))
            else:
                unconfirmed.append((c, m, r))
        elif m[0] == "find":
            if r["status"] == "violation":
                found.setdefault(m[1].name, r["label"])
        else:
            if r["status"] == "violation":
                c["label"] = c["observed_label"] = r["label"]
                confirmed.append((c, m, r))
            elif r["status"] == "ok":
                bad = False
                if m[3] is not None:
                    for (n1, v1), (n2, v2) in zip(m[3], r["obs"]):
                        if n1 != n2 or len(v1) != len(v2) or not all(close(a, b) for a, b in zip(v1, v2)):
                            bad = True
                            mism.append("%s %s: %s symbolic %s, real %s; %s" % (m[1].name, m[2], n1, v1, v2, json.dumps(c["script"])[:600]))
                            break
                if not bad:
                    validated += 1
                    if len(samples) < 5:
                        samples.append({"harness": m[1].name, "config": m[2], "inputs": dict(list(c["script"]["inputs"].items())[:24]),
                                        "draws": str(c["script"]["draws"])[:300], "requirements_checked": r["n_req"]})

    errs, skipped = [], []
    for (h, cfg), r in zip(jobs, res):
        skipped += ["%s %s: %s" % (h.name, cfg, e) for e in r.get("skip", [])]
        if r.get("skip"):
            continue
        for e in r["errs"]:
            errs.append("%s %s: %s" % (h.name, cfg, e))
        if r["done"] and not r["viol"] and (r["stats"]["paths"] == 0 or r["stats"]["props"] == 0):
            errs.append("%s %s: vacuous (no path reaches the requirements)" % (h.name, cfg))
    for c, m, r in unconfirmed:
        if not confirmed:
            errs.append("%s %s: counterexample did not reproduce on the real code: %s (%s)\n%s\n%s" % (
                m[1].name, m[2], m[3], r, json.dumps(c["script"])[:1500], m[4]))
    errs += ["engine/real disagreement: " + x for x in mism]

    tot = {k: sum(r["stats"][k] for r in res) for k in ("paths", "decisions", "queries", "solver_s", "props", "infeasible", "merged")} if res else {}
    per = []
    for (h, cfg), r in zip(jobs, res):
        per.append({"harness": h.name, "config": cfg, "paths": r["stats"]["paths"], "decisions": r["stats"]["decisions"],
                    "queries": r["stats"]["queries"], "requirements": r["stats"]["props"], "solver_s": round(r["stats"]["solver_s"], 2),
                    "max_depth": r["depth"], "covered_completely": r["done"], "cpu_s": round(r["t"], 2)})
    if verbose:
        for p in per:
            print("  %-34s %-52s paths=%d dec=%d q=%d req=%d solver=%.1fs depth=%d cpu=%.1fs %s" % (
                p["harness"], p["config"], p["paths"], p["decisions"], p["queries"], p["requirements"], p["solver_s"], p["max_depth"], p["cpu_s"],
                "" if p["covered_completely"] else "INCOMPLETE"))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)), "transitions": int(tot.get("decisions", 0)), "traces_validated_against_impl": validated,
            "samples": samples, "solver_queries": int(tot.get("queries", 0)), "solver_seconds": round(tot.get("solver_s", 0.0), 2),
            "requirements_discharged": int(tot.get("props", 0)),
            "functions_encoded": sorted({f for h in main_h for f in h.functions}),
            "bounds": {h.name: h.bounds for h in main_h}, "stubs": sorted({s for h in main_h for s in h.stubs}),
            "per_harness": per, "not_decided": [e.split("\n")[0][:300] for e in errs] + skipped, "all_covered_completely": all(r["done"] for r in res),
            "meaning": "states = feasible symbolic execution paths of the real functions, each discharged by the solver for every value on "
                       "the path; transitions = forking branch decisions; traces validated = solver models of passing paths re-run on the "
                       "unpatched code with real numpy",
        },
        "assumptions": ["exact real/integer arithmetic (no float rounding) unless the harness says otherwise", "sizes as listed in bounds"],
        "wall_s": round(time.perf_counter() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)

    if confirmed:
        c, m, r = confirmed[0]
        os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", "replays", "%s.json" % pid)
        c["how"] = "python symx/replay.py %s" % path
        json.dump(c, open(path, "w"), indent=1)
        for c2, m2, r2 in confirmed[:6]:
            print("  %s %s: %s" % (c2["harness"], c2["cfg"], r2["label"]))
            if verbose:
                print(json.dumps(c2["script"])[:1500], r2.get("tb", ""))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for h in find_h:
        texts = [t for k, t in kf if k == h.name]
        if h.name in found and texts:
            print("KNOWN-FINDING: property=%s %s" % (pid, texts[0]))
        elif h.name in found:
            path = os.path.join(ROOT, "evidence", "replays", "%s.json" % pid)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            c = [c for c, m in zip(cases, meta) if m[0] == "find" and m[1] is h][0]
            json.dump(c, open(path, "w"), indent=1)
            print("  %s: %s" % (h.name, found[h.name]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
    for sk in skipped:
        print("NOTE not decided, its target is not there any more: " + sk)
    decided = sum(1 for r in res if r["done"] and r["stats"]["props"])
    if errs:
        for e in errs[:8]:
            print("NOTE not decided: " + (e if os.environ.get("SYMX_STRICT") else e.split("\n")[0][:300]))
        if os.environ.get("SYMX_STRICT") or not decided:
            print("INCONCLUSIVE property=%s (%d problems)" % (pid, len(errs)))
            return 2
    if not decided:
        print("INCONCLUSIVE property=%s (nothing decided)" % pid)
        return 2
    print("OK property=%s paths=%d queries=%d requirements=%d validated=%d wall=%.1fs" % (
        pid, tot.get("paths", 0), tot.get("queries", 0), tot.get("props", 0), validated, time.perf_counter() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
