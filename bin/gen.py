#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from bin/props.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, HOOKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = dict(over=p["over"], text=p["forall"])
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if "observe" in p: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=q,
                                why_tests_cant=p["why"], anchors=a)) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE: continue
    checks.append(dict(property=p["id"], quick_cmd="python3 bin/vrun.py " + p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 bin/vrun.py " + p["id"],
                       technique=p.get("technique", "contracts on the real functions, discharged by Kani (CBMC)"),
                       level=p.get("level", "proof"), level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="bash bin/setup.sh", hooks=HOOKS, checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
               notes="See DESIGN.md. Each check instantiates kani/h against the current /repo."),
          open(V + "/MANIFEST.json", "w"), indent=1)
