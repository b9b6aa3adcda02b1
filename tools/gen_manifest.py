#!/usr/bin/env python3
# writes MANIFEST.json: CLAIMED lists the properties whose checks are registered
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l); props[d["id"]] = d
exec(open(os.path.join(here, "tools", "claims.py")).read())
checks, na = [], []
for i in sorted(props):
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "bash run.sh " + i,
                       "technique": t, "level": "other", "level_note": n})
    elif i in NA:
        na.append({"property": i, "reason": NA[i]})
    else:
        na.append({"property": i, "reason": "No check has been built for it yet."})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "One checker (checker/, Go, golang.org/x/tools SSA) decides every property from /repo's current source; nothing of /repo is executed. The same exhaustive exploration is used for the quick and the thorough command."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
