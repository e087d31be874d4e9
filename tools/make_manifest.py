"""Writes MANIFEST.json from the table below and the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C33": "Statistical quality of a hash over the items met in practice is a statement about distributions of runtime values; no static argument in reach bounds collision counts, and sampling would be a runtime test.",
}
PEND = "check not built yet"
TECH = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NA:
        na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(os.path.join(ROOT, "xv", "checks", i.lower() + ".py")) or i not in TECH:
        na.append(dict(property=i, reason=PEND)); continue
    t = TECH[i]
    cmd = f"/opt/venv/bin/python -B -m xv.run {i}"
    checks.append(dict(property=i, quick_cmd=cmd + " quick", thorough_cmd=cmd + " thorough", technique=t[0], level="other", level_note=t[1]))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -B -m xv.selftest", checks=checks, not_applicable=na,
               notes="All checks are static: they lower /repo's current source to IR (or parse it) and decide rules on it; see DESIGN.md."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
