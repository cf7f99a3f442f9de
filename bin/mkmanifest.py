#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that bin/checks.py decides."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
from manifest_text import TEXT
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.TABLE:
        m["checks"].append({"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": TEXT[p][0], "level": "model_checking",
                            "level_note": TEXT[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": "its check is not built yet"})
m["notes"] = "No hooks in /repo: the harness uses the exported API and replaces net.Conn."
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
