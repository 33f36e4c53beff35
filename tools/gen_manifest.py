#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checkinfo.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import checkinfo
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = checkinfo.INFO.get(i)
    if c:
        checks.append({"property": i, "quick_cmd": "./run.py %s" % i, "thorough_cmd": "./run.py %s --thorough" % i,
                       "technique": c.get("technique", "stateless model checking of the real server: exhaustive enumeration of bounded operation sequences under a simulated OS, judged by a reference model"),
                       "level": c["level"], "level_note": c["note"] or c["bound"]})
    else:
        na.append({"property": i, "reason": checkinfo.NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "NONE", "enable": "no hooks: the machinery links /repo's unchanged sources", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
