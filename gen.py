#!/usr/bin/env python3
import re
"""Writes properties.jsonl and MANIFEST.json from checks.py."""
import json, os
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
NA = []
try:
    from checks import NOT_APPLICABLE as NA
except ImportError:
    pass
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for pid in sorted(CHECKS):
        c = CHECKS[pid]
        f.write(json.dumps(dict(id=pid, title=c["title"], statement=c["statement"], quantifier=dict(over=c["over"], text=c["qtext"]),
                                why_tests_cant=c["why"], anchors=dict(files=c["files"], mechanism=c["mechanism"], hook_needed=None))) + "\n")
    for n in NA:
        f.write(json.dumps(n["entry"]) + "\n")
m = dict(version=1, setup_cmd="python3 setup_check.py",
         checks=[dict(property=pid, quick_cmd="python3 run.py %s --tier quick" % pid, thorough_cmd="python3 run.py %s --tier thorough" % pid,
                      evidence_file="evidence/%s.json" % pid, technique="model checking: " + CHECKS[pid]["technique"], level="model_checking",
                      level_note=CHECKS[pid]["note"]) for pid in sorted(CHECKS)],
         not_applicable=[dict(property=n["entry"]["id"], reason=n["reason"]) for n in NA],
         notes="No hooks are needed in /repo: every explorer links the library as built from /repo's working tree, or runs its programs as black boxes.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
for pid in CHECKS:
    assert len(CHECKS[pid]["title"]) <= 80, pid

# DESIGN.md
def para(pid):
    c = CHECKS[pid]
    b = c["bounds"]
    return ("### %s %s\n\n*Specified:* %s\n\n*Anchored in:* %s (%s).\n\n*Explored (quick):* %s. *Thorough:* %s.\n\n*Oracle and method:* %s. %s%s\n\n*Beyond the tests:* %s\n" % (
        pid, c["title"], c["statement"], ", ".join(c["files"]), "; ".join("%s: %s" % (m["name"], m["where"]) for m in c["mechanism"]), b["quick"], b["thorough"],
        c["technique"], c["note"], ("\n\n" + c["design"]) if c.get("design") else "", c["why"]))
res = {}
p = os.path.join(here, "seed_results.json")
if os.path.exists(p):
    res = json.load(open(p))
rows = ["| planted bug | property | needs | caught by its check |", "|---|---|---|---|"]
sd = os.path.join(here, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mp = os.path.join(sd, s, "meta.json")
    if os.path.exists(mp):
        mt = json.load(open(mp))
        rows.append("| %s | %s | %s | %s |" % (s, mt["property"], mt["needs"], res.get(s, "not run")))
t = open(os.path.join(here, "design.tmpl")).read()
t = t.replace("PER_PROPERTY", "\n".join(para(p) for p in sorted(CHECKS)) + "".join("\n### %s %s\n\nNot decided here: %s\n" % (n["entry"]["id"], n["entry"]["title"], n["reason"]) for n in NA))
t = t.replace("SEEDED", "\n".join(rows))
kf = [l.strip() for l in open(os.path.join(here, "known_findings.txt")) if not l.startswith("#")]
t = t.replace("FIXED", "\n".join("* " + re.sub(r"fixed: property=(\S+) (\S+) ", r"\1 (\2): ", l) for l in kf if l.startswith("fixed:")))
t = t.replace("KNOWN\n", "\n".join("* " + re.sub(r"known:\s+property=(\S+) key=(\S+) ", r"\1 (\2): ", l) for l in kf if l.startswith("known:")) + "\n")
with open(os.path.join(here, "DESIGN.md"), "w") as f:
    f.write(t)
