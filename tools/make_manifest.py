#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, build
NA = {"C24": "the GPU toolkits (CUDA, ROCm, oneAPI) and devices are not installed and cannot be fetched, so the code of this property cannot be compiled or executed here; no generated-input search is possible"}
props = [json.loads(l) for l in open(os.path.join(build.VERIF, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
       "notes": "every check compiles the sources of /repo's working tree (cached by content) and runs generated cases; see DESIGN.md"}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i, "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "property-based testing"), "level": "exploration", "level_note": c.get("note", "")})
    else: out["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed: no check is registered yet")})
json.dump(out, open(os.path.join(build.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks")
