"""/opt/venv/bin/python replay/run.py C01 [--seconds S] [--seed N] [--check NAME --case-seed K] [--out FILE]"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
p = argparse.ArgumentParser()
p.add_argument("cid")
p.add_argument("--seconds", type=float, default=10)
p.add_argument("--seed", default="1")
p.add_argument("--check")
p.add_argument("--case-seed", type=int)
p.add_argument("--out")
a = p.parse_args()
import base
try:
    importlib.import_module(a.cid.lower())
    err = None
except Exception as e:
    err = "the package cannot be imported: %s: %s" % (type(e).__name__, e)
if err:
    res = {"evaluations": 1, "per_check": {}, "samples": [], "distinct": 1, "seconds": 0,
           "failures": [{"check": "import", "case_seed": 0, "input": "import barotropic", "what": err}]}
elif a.case_seed is not None:
    f = [f for n, f, w in base.ORACLES if n == a.check][0]
    c, msg = base.run_case(a.check, f, a.case_seed)
    print("check %s, case seed %d: %s" % (a.check, a.case_seed, ", ".join(c.log)))
    print("FAILS: " + msg if msg else "holds")
    sys.exit(1 if msg else 0)
else:
    res = base.run(a.seconds, a.seed, a.check, **({"max_fail": 1} if os.environ.get("VFY_FIRST") else {}))
if a.out:
    json.dump(res, open(a.out, "w"))
else:
    print(json.dumps(res, indent=1))
sys.exit(0)
