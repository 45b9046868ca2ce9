"""caught.py [-j N] PATCHDIR...: run the check of each planted change (or, with -a, every check) on a scratch copy"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time


def one(d, cids=None):
    name = os.path.basename(d.rstrip("/"))
    r, v = "/tmp/caught-r-" + name, "/tmp/caught-v-" + name
    for x in (r, v):
        shutil.rmtree(x, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    a = subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], capture_output=True, text=True)
    if a.returncode:
        return name, "does not apply: " + a.stderr
    os.makedirs(v)
    for x in ("vfy", "contracts", "replay"):
        shutil.copytree("/verif/" + x, v + "/" + x)
    for x in ("check.py", "known_findings.txt"):
        shutil.copy("/verif/" + x, v)
    meta = json.load(open(d + "/meta.json")) if os.path.exists(d + "/meta.json") else {}
    out = []
    if "checks" in meta and not cids:
        cids = meta["checks"].split()
    for c in cids or [meta["property"]]:
        t = time.time()
        p = subprocess.run(["python3-vt", v + "/check.py", c, "--tier", "quick"], cwd=v, capture_output=True, text=True,
                           env=dict(os.environ, VFY_REPO=r, VFY_SRC=r + "/src/barotropic", VFY_PROCS=os.environ.get("VFY_PROCS", "4")))
        lines = p.stdout.strip().splitlines()
        und = [l for l in lines if l.startswith("UNDECIDED")]
        why = ""
        f = v + "/out/replay-%s.json" % c
        if p.returncode and os.path.exists(f):
            j = json.load(open(f))
            why = "obl %s | undecided %d | inputs %s" % (
                [o["unit"] + ":" + o["name"] for o in j["failed_obligations"]][:2], len(j["undecided_units"]),
                [i["check"] for i in j["failing_inputs"]][:3])
        out.append("%s rc=%d %ds %s %s" % (c, p.returncode, time.time() - t, (lines or [p.stderr[-300:]])[-1][:110], why[:400]))
    for x in (r, v):
        shutil.rmtree(x, ignore_errors=True)
    return name, "\n      ".join(o for o in out if not cids or "rc=0" not in o or "UNDECIDED" in o) or "all %d checks quiet" % len(out)


if __name__ == "__main__":
    args = sys.argv[1:]
    j = 1
    cids = None
    if args and args[0] == "-j":
        j = int(args[1])
        args = args[2:]
    if args and args[0].startswith("-a"):
        cids = args[0][2:].split(",") if len(args[0]) > 2 else ["C%02d" % i for i in (*range(1, 22), 23)]
        args = args[1:]
    with cf.ThreadPoolExecutor(j) as ex:
        for n, t in ex.map(lambda d: one(d, cids), args):
            print(n, t, flush=True)
