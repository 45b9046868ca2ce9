"""plant.py SPEC.py: make /verif/seeded/<id> from a description and confirm it in a scratch copy of /repo.

SPEC.py defines BUGS = [dict(id=, property=, file=, edits=[(old, new), ...], demo=, needs=, breaks=), ...]"""
import json
import os
import runpy
import shutil
import subprocess
import sys

SEED = "/verif/seeded"
DEMO_SH = """#!/bin/bash
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = "import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\n"


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    specs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    for b in specs:
        if only and b["id"] not in only:
            continue
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        scratch = "/tmp/plant-" + b["id"]
        shutil.rmtree(scratch, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", scratch], check=True)
        edits = b["edits"] + b.get("more", [])
        for e in edits:
            f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
            p = os.path.join(scratch, "src/barotropic", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT MATCHES %d TIMES: %r" % (s.count(old), old[:60]))
                break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = run(["git", "diff"], scratch).stdout
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(DEMO_SH)
            open(d + "/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            # lines changed must be original ones
            blame = []
            for e in edits:
                f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
                out = run(["git", "log", "--format=%h %s", "-S" + old.strip().split("\n")[0], "--", "src/barotropic/" + f], "/repo").stdout
                blame += [l for l in out.splitlines() if " fix:" in l]
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONHASHSEED="0")
            t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], scratch, env=dict(env, PYTHONPATH=scratch + "/src"))
            ok = run(["bash", d + "/demo.sh"], "/repo")
            bad = run(["bash", d + "/demo.sh"], scratch)
            good = t.returncode == 0 and ok.returncode == 0 and bad.returncode != 0
            print(b["id"], "OK" if good else "NOT OK", "tests", t.returncode, "clean", ok.returncode, "patched", bad.returncode, "FIX LINES? %s" % blame if blame else "")
            if not good:
                print(t.stdout[-1500:] if t.returncode else "", ok.stdout[-500:], ok.stderr[-1500:] if ok.returncode else "", "" if bad.returncode else "demo does not fail")
            else:
                print("   ", bad.stderr.strip().splitlines()[-1] if bad.stderr.strip() else "")
        shutil.rmtree(scratch, ignore_errors=True)


main()
