#!/usr/bin/env python3
"""Write MANIFEST.json from the list of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = dict(version=1, setup_cmd="python3 lib/setup.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        note = checks.NOTES.get(i, "")
        out["checks"].append(dict(
            property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
            technique=checks.TECH.get(i, checks.TRACE), level="model_checking",
            level_note=(note + " " + checks.TRUST).strip()))
    else:
        out["not_applicable"].append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
