#!/usr/bin/env python3
"""Regenerates MANIFEST.json from config.py and properties.jsonl."""
import json, os
from config import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 build.py --all", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": CHECKS[i].get("technique", "bounded exhaustive exploration (stateless model checking) of the real code against a reference model"),
            "level": "model_checking", "level_note": CHECKS[i].get("note", "Every case within the stated bounds is executed on the sanitized build of /repo's working tree and compared with an independent reference; nothing is claimed beyond the bounds.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
