#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that check.py offers."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "lib"))
import check
TECH = json.load(open(os.path.join(V, "lib", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public interface, the tools and interposed libc calls", "source_commits": []}, "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in check.CHECKS and i in TECH:
        t = TECH[i]
        out["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                              "technique": t["technique"], "level": t.get("level", "exploration"), "level_note": t["note"]})
    else:
        out["not_applicable"].append({"property": i, "reason": TECH.get(i, {}).get("na", "the check for this property is not finished yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
