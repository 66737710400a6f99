#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from props.py and properties.jsonl.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    p = PROPS.get(i)
    if not p or p.get("wip"): continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=p["technique"], level=p["level"], level_note=p["note"]))
have = {c["property"] for c in checks}
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in have]
m = dict(version=1, setup_cmd="python3 check.py --setup",
    hooks=dict(guard="SPH_MC_HOOKS", enable="check.py compiles /repo/src with -DSPH_MC_HOOKS (variants 'plain' and 'mc'); the hook functions come from /verif/mc",
               source_commits=["HASH"]), checks=checks, not_applicable=na,
    notes="All checks are run through check.py; known findings are in known-findings.txt; see DESIGN.md.")
import subprocess
m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", "6518584"], capture_output=True, text=True).stdout.strip()]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "claimed,", len(na), "not")
