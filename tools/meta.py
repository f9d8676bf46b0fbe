#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties/*.json-like python data."""
import json, os, sys, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("propdata", os.path.join(ROOT, "tools", "propdata.py"))
d = importlib.util.module_from_spec(spec); spec.loader.exec_module(d)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in d.PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
checks, na = [], list(getattr(d, "NOT_APPLICABLE", []))
for p in d.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search over the real code)",
        "level": "exploration",
        "level_note": p["note"],
        "evidence_file": f"evidence/{p['id']}.json",
    })
m = {"version": 1, "setup_cmd": "./build.sh", "hooks": d.HOOKS, "checks": checks, "not_applicable": na, "notes": d.NOTES}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(d.PROPS), "properties,", len(checks), "checks")
