#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 run.py check {i} --tier quick", thorough_cmd=f"python3 run.py check {i} --tier thorough",
                                evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check was built for it")))
m["notes"] = "No hooks: /repo is compiled from its working tree with harnesses in /verif/harness; the only commits in /repo are fix: commits."
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
