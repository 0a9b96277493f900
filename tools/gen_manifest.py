#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c:
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py check %s --tier quick" % p["id"],
            thorough_cmd="python3 run.py check %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
            technique=c["technique"], level=c["level"],
            level_note=c.get("note", "Every case of the stated finite space is executed on the real code and compared with an independent definitional model; nothing is claimed outside the bounds recorded in the evidence.")))
    else:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet")))
assert set(CHECKS) <= {p["id"] for p in props}
m = dict(version=1, setup_cmd="python3 run.py setup",
         hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: the harnesses use the public interface only", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks build their own harness from /repo/include in the working tree (see run.py, checks.py, harness/).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
