#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from props import PROPS
from table import TABLE, NOT_APPLICABLE

with open(V + "/properties.jsonl", "w") as f:
    for t in TABLE:
        assert len(t["title"]) <= 80, t["id"]
        f.write(json.dumps(dict(id=t["id"], title=t["title"], statement=t["statement"],
                                quantifier=dict(over=t["over"], text=t["forall"]), why_tests_cant=t["tests"],
                                anchors=dict(files=t["files"], mechanism=[dict(name=a, where=b) for a, b in t["mech"]],
                                             observe_at=t["observe"], hook_needed=None))) + "\n")
checks = []
na = list(NOT_APPLICABLE)
for t in TABLE:
    if t["id"] in PROPS:
        i = t["id"]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py check {i} --tier quick", thorough_cmd=f"python3 run.py check {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=t["tech"], level="exploration", level_note=t["note"]))
    elif t["id"] not in [n["property"] for n in na]:
        na.append(dict(property=t["id"], reason="check still being built"))
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 run.py build", hooks=dict(guard="none", enable="no hooks: every monitor sits at the public interface", source_commits=[]),
                   checks=checks, not_applicable=na), f, indent=1)
print(len(TABLE), "properties,", len(checks), "checks")
