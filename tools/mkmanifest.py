#!/usr/bin/env python3
# Writes MANIFEST.json from plan.py (committed output; this is the readable source).
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PROPS
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[], notes=
 "check.py rebuilds the library from /repo's current sources in the variants listed in plan.py; see DESIGN.md. Replay a failure with: python3 check.py <id> --replay <file>.")
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=p["technique"], level=p.get("level", "exploration"), level_note=p.get("note", "")))
    else:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
m["hooks"] = dict(guard="FL2_VERIF_SMALL_JOBS", enable="check.py compiles the library sources with -DFL2_VERIF_SMALL_JOBS in the scheduler variants (plan.py), so that small inputs are divided among several encoder threads", source_commits=["934f66c"])
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
