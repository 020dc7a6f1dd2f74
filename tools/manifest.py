#!/usr/bin/env python3
"""Regenerate MANIFEST.json from tools/registry.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in registry.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i,
                            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": registry.TECHNIQUE.get(i, registry.DEFAULT_TECHNIQUE),
                            "level": registry.CHECKS[i][2],
                            "level_note": registry.NOTES.get(i, registry.DEFAULT_NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": registry.NA.get(i, "no check has been built for it yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
