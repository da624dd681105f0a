"""Writes MANIFEST.json from tools/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": list(checks.NOT_APPLICABLE)}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    elif p not in [n["property"] for n in m["not_applicable"]]:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
