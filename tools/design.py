"""Rewrites the generated part of DESIGN.md (one section per property) from the harness modules."""
import glob, importlib.util, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "props"))
from symx import harness as H
out = []
for f in sorted(glob.glob(os.path.join(ROOT, "props", "p[0-9]*_*.py"))):
    pid = os.path.basename(f).split("_")[0].upper()
    spec = importlib.util.spec_from_file_location("dsg_" + os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    M = m.META
    hs = H.REGISTRY.get(pid, [])
    out.append("### %s: %s\n" % (pid, M["title"]))
    out.append("Oracle: the statement itself, asserted in `props/%s` over the results of the real functions. Bounds: %s\n" % (os.path.basename(f), M["level_note"]))
    ev = os.path.join(ROOT, "evidence", pid + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        out.append("Cost (%s): %d paths, %d solver queries, %.0f s.\n" % (e["tier"], e["coverage"]["states"], e["coverage"]["solver_queries"], e["wall_s"]))
    for h in hs:
        fn = ", ".join("`%s`" % x.split("/")[-1] for x in h.functions)
        kind = " (known finding)" if h.expect is not None else ""
        st = "; stand-ins: " + ", ".join(h.stubs) if h.stubs else ""
        out.append("- `%s`%s: %s%s%s" % (h.name, kind, fn, (" - " + h.bounds) if h.bounds else "", st))
    out.append("")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = "<!-- generated:begin -->", "<!-- generated:end -->"
s = s[: s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(p, "w").write(s)

rows = ["| bug | check | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m.get("caught_by", m["property"]), m["what_it_breaks"], m["needs"]))
s = open(p).read()
a, b = "<!-- seeded:begin -->", "<!-- seeded:end -->"
s = s[: s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
