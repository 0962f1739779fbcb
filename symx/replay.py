"""Replays recorded cases on the unpatched code with real numpy (fresh process).

usage: replay.py FILE.json            one recorded violation (exit 1 when it reproduces)
       replay.py --batch IN OUT       used by the checks
"""
from __future__ import annotations

import json
import os
import sys
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.path.insert(0, ROOT)
    sys.path.insert(0, os.environ.get("SYMX_REPO", "/repo"))
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import pymoo.functions as pf
    orig = pf.FunctionLoader.load

    def load(self, func_name=None, mode=None):
        return orig(self, func_name, "python")
    pf.FunctionLoader.load = load


def run_case(case):
    from symx import harness as H
    from symx.rng import ScriptExhausted
    import numpy as np
    hs = {h.name: h for h in H.load(case["pid"])}
    h = hs[case["harness"]]
    S = H.ConcS(json.loads(json.dumps(case["script"])))
    from symx.rng import install_scripted
    install_scripted(S.script)
    try:
        h.fn(S, **case["cfg"])
        obs = []
        for name, v in S.observed:
            vals = [None if x is None else float(x) for x in (np.asarray(v, dtype=object).reshape(-1))]
            obs.append([name, vals])
        return {"status": "ok", "n_req": S.n_req, "obs": obs}
    except H.AssumptionFailed:
        return {"status": "assumption"}
    except H.ConcreteViolation as v:
        return {"status": "violation", "label": v.label}
    except ScriptExhausted:
        return {"status": "script"}
    except Exception as ex:  # noqa: BLE001
        return {"status": "violation", "label": "raised %s: %s" % (type(ex).__name__, str(ex)[:200]), "tb": traceback.format_exc(limit=-6)}


def main():
    setup()
    if sys.argv[1] == "--batch":
        cases = json.load(open(sys.argv[2]))
        json.dump([run_case(c) for c in cases], open(sys.argv[3], "w"))
        return 0
    case = json.load(open(sys.argv[1]))
    r = run_case(case)
    print(json.dumps(r, indent=1))
    return 1 if r["status"] == "violation" else 0


if __name__ == "__main__":
    sys.exit(main())
