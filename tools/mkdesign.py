#!/usr/bin/env python3
"""Fills DESIGN.md from tools/design.in.md, tools/table.py, harness/props.py, known_findings.txt and seeded/."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/harness"]
from table import TABLE, NOT_APPLICABLE
from props import PROPS
rows = []
for t in TABLE:
    p = PROPS[t["id"]]
    rows.append(f"| {t['id']} | {t['title']}: {p['rule']} | {t['tech']} | at least {p['min_eval']} evaluations in {p['min_sigs']} situations; "
                f"{t['note']} | {t['tests']} |")
fx = []
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        fx.append(f"* {m.group(1)} `{m.group(2)}`: {m.group(3)}")
    m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", l)
    if m:
        fx.append(f"* recorded, not repaired: {m.group(1)} `{m.group(2)}`: {m.group(3)}")
sd = ["| bug | property | what it breaks | needs | found by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(d))
    sd.append(f"| {os.path.basename(os.path.dirname(d))} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {j.get('caught', '?')} |")
na = "".join(f"\n* {n['id'] if isinstance(n, dict) else n}: {n.get('reason') if isinstance(n, dict) else ''}" for n in NOT_APPLICABLE)
s = open(V + "/tools/design.in.md").read()
s = s.replace("@TABLE@", "\n".join(rows) + (("\n\nNot applicable:" + na) if na else "")).replace("@FIXED@", "\n".join(fx))
s = s.replace("@SEEDS@", "\n".join(sd)).replace("@NOTES@", open(V + "/tools/notes.md").read().strip())
open(V + "/DESIGN.md", "w").write(s)
