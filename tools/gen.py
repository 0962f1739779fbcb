"""Writes properties.jsonl and MANIFEST.json from the META dictionaries of props/*.py (and props/na.json for what is not claimed)."""
import glob, importlib.util, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "props"))
TECH = "path-exhaustive symbolic execution of the real Python source with z3 (bounded), counterexamples replayed on the real code"
props, checks = [], []
seen = {}
for f in sorted(glob.glob(os.path.join(ROOT, "props", "p[0-9]*_*.py"))):
    pid = os.path.basename(f).split("_")[0].upper()
    spec = importlib.util.spec_from_file_location("gen_" + os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    if not hasattr(m, "META"):
        continue
    M = m.META
    assert len(M["title"]) <= 80, (pid, len(M["title"]))
    props.append(dict(id=pid, title=M["title"], statement=M["statement"], quantifier=M["quantifier"], why_tests_cant=M["why_tests_cant"], anchors=M["anchors"]))
    checks.append(dict(property=pid, quick_cmd="./check %s quick" % pid, thorough_cmd="./check %s thorough" % pid, evidence_file="evidence/%s.json" % pid,
                       technique=M.get("technique", TECH), level="model_checking", level_note=M["level_note"]))
na = []
p = os.path.join(ROOT, "props", "na.json")
if os.path.exists(p):
    for e in json.load(open(p)):
        na.append(dict(property=e["id"], reason=e["reason"]))
        props.append({k: e[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
    for q in props:
        o.write(json.dumps(q) + "\n")
json.dump(dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=na,
               notes="Engine in symx/, one harness module per property in props/; see DESIGN.md"), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    for q in props:
        jsonschema.validate(q, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(os.path.join(ROOT, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError:
    pass
print(len(props), "properties", len(checks), "checks", len(na), "not applicable")
