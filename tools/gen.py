#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development helper; output is committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None),
                  _t=technique, _n=note))


def na(pid, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))
    NA.append(dict(property=pid, reason=reason))


S = "src/ciceroscm/"
VG = "abstract interpretation to a gated value graph (global value numbering), equality of value graphs by normal form / random interpretation"
TRUST = " Trusts the numpy/pandas/scipy models in sa/libmodel.py and real (not floating-point) arithmetic; constructs outside the models give undecided obligations, listed in the evidence."
exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
import re
for p in P:
    n = len(re.findall(r"[.](\s|$)", p["statement"]))
    if n > 3 or len(p["title"]) > 80:
        print("too long:", p["id"], n, len(p["title"]))
checks = []
for p in P:
    if "_t" not in p:
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py --property %s --tier quick" % p["id"],
                       thorough_cmd="python3 check.py --property %s --tier thorough" % p["id"],
                       technique=p["_t"], level="other", level_note=p["_n"]))
m = dict(version=1, setup_cmd="python3 -m compileall -q sa checks check.py >/dev/null 2>&1; true", checks=checks, not_applicable=NA,
         notes="Pure-stdlib Python analyser in sa/; per-property rules in checks/; nothing under /repo is imported or executed.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(P), "properties", len(checks), "checks")
