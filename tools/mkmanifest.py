#!/usr/bin/env python3
import json, sys
sys.path.insert(0, "/verif")
from checks_cfg import CHECKS
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the monitors observe the public interfaces of the library built from /repo/src by /verif/harness/CMakeLists.txt", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
