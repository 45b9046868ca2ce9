"""check.py <property> [--tier quick|thorough]: prove every obligation generated from /repo's current source"""
import argparse
import ast
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VENV = "/opt/venv/bin/python"
REPO = os.environ.get("VFY_REPO", "/repo")
os.environ.setdefault("VFY_SRC", os.path.join(REPO, "src", "barotropic"))


def oracle_start(cid, seconds, seed, out):
    if not os.path.exists(os.path.join(HERE, "replay", cid.lower() + ".py")):
        return None
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    if os.path.exists(out):
        os.unlink(out)
    return subprocess.Popen([VENV, os.path.join(HERE, "replay", "run.py"), cid, "--seconds", str(seconds), "--seed",
                             str(seed), "--out", out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def oracle_result(p, out, limit):
    if p is None:
        return None
    try:
        txt = p.communicate(timeout=limit)[0]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"error": "time limit", "evaluations": 0, "failures": []}
    if os.path.exists(out):
        return json.load(open(out))
    return {"error": "ended with code %s: %s" % (p.returncode, (txt or "")[-800:]), "evaluations": 0, "failures": []}


def known_findings(cid):
    """open findings of a property: lines 'KNOWN property=<id> check=<concrete check or obligation> :: what fails'"""
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            if line.startswith("KNOWN property=%s " % cid):
                key = line.split("check=", 1)[1].split("::")[0].strip()
                out.append((key, line.split("::", 1)[1].strip()))
    return out


def source_functions():
    """functions defined in the package, by module"""
    out = {}
    d = os.environ["VFY_SRC"]
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            try:
                tree = ast.parse(open(os.path.join(d, f)).read())
            except SyntaxError:
                continue
            m = f[:-3]
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    out["%s.%s" % (m, n.name)] = n.lineno
                elif isinstance(n, ast.ClassDef):
                    for k in n.body:
                        if isinstance(k, ast.FunctionDef):
                            out["%s.%s.%s" % (m, n.name, k.name)] = k.lineno
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    cid, tier = a.cid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    out = os.path.join(HERE, "out", "oracle-%s.json" % cid)
    secs = 25 if tier == "quick" else 240
    p = oracle_start(cid, secs, seed, out)

    from vfy import unit as U
    err = None
    try:
        results = U.run_all(cid, procs=int(os.environ.get("VFY_PROCS", "7")), timeout=420 if tier == "quick" else 700,
                            thorough=(tier != "quick"))
    except Exception as e:
        results, err = [], "%s: %s" % (type(e).__name__, e)
    orc = oracle_result(p, out, secs + 120)

    nobl = sum(len(r["obligations"]) for r in results)
    nok = sum(o["ok"] for r in results for o in r["obligations"])
    failed = [(r["unit"], o) for r in results for o in r["failed"]]
    undecided = [r for r in results if r["status"] != "ok"]
    if err:
        undecided.append({"unit": cid, "why": "engine: " + err, "status": "undecided"})
    if not results and not err:
        undecided.append({"unit": cid, "why": "no units", "status": "undecided"})
    # an obligation failed or a function left the verifier's subset: search longer for a failing input
    searched = orc
    if (failed or undecided) and orc is not None and not orc["failures"]:
        out2 = os.path.join(HERE, "out", "search-%s.json" % cid)
        s2 = 60 if tier == "quick" else 200
        o2 = oracle_result(oracle_start(cid, s2, "%d-search" % seed, out2), out2, s2 + 120)
        searched = {"evaluations": orc["evaluations"] + o2["evaluations"], "failures": o2["failures"],
                    "per_check": o2.get("per_check"), "samples": orc.get("samples"), "distinct": orc.get("distinct", 0)
                    + o2.get("distinct", 0), "error": o2.get("error")}
    inputs = (searched or {}).get("failures") or []

    known = known_findings(cid)
    hit = set()

    def is_known(name):
        for k, txt in known:
            if k == name:
                hit.add((k, txt))
                return True
        return False
    inputs = [f for f in inputs if not is_known(f["check"])]
    failed = [(u, o) for u, o in failed if not is_known(u + ":" + o["name"])]

    # nothing decided at all: neither the verifier nor the bounded stand-in gave an answer
    blind = bool(undecided) and (not searched or bool(searched.get("error")) or not searched.get("evaluations"))
    violated = bool(failed or inputs or blind)
    replay = None
    if violated:
        replay = os.path.join(HERE, "out", "replay-%s.json" % cid)
        json.dump({
            "property": cid,
            "failed_obligations": [dict(unit=u, **o) for u, o in failed][:20],
            "undecided_units": [{"unit": r["unit"], "why": r["why"]} for r in undecided],
            "failing_inputs": inputs,
            "replay": ["%s %s %s --check '%s' --case-seed %d" % (VENV, os.path.join(HERE, "replay", "run.py"), cid,
                                                                 f["check"], f["case_seed"]) for f in inputs],
        }, open(replay, "w"), indent=1)

    # -- evidence
    funcs = source_functions()
    under = sorted({f for r in results for f in r.get("under", [])})
    backends = {}
    for r in results:
        for o in r["obligations"]:
            if o["ok"]:
                backends[o["backend"] or "normal-form"] = backends.get(o["backend"] or "normal-form", 0) + 1
    bounded = [r for r in results if r.get("bounded")]
    solver_s = sum(r.get("stats", {}).get("solver_s", 0) for r in results)
    from vfy.assumptions import trusted_base, assumptions
    ev = {
        "property": cid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "proof",
        "coverage": {
            "obligations": nobl, "discharged": nok, "by_back_end": backends, "solver_s": round(solver_s, 2),
            "paths": sum(r.get("paths", 0) for r in results),
            "checker_cmd": "cd /verif && python3-vt -m vfy.unit %s" % cid,
            "functions_under_contract": under,
            "functions_missing_in_source": [f for f in under if f not in funcs],
            "units": [{"unit": r["unit"], "status": r["status"], "obligations": len(r["obligations"]),
                       "discharged": sum(o["ok"] for o in r["obligations"]), "paths": r["paths"], "s": r["seconds"],
                       **({"bounded": r["bounded"]} if r.get("bounded") else {}),
                       **({"why": r["why"][:200]} if r["why"] else {})} for r in results],
            "bounded_units_not_counted_as_proved": [r["unit"] for r in bounded],
            "obligation_names": sorted({r["unit"].split("/", 1)[1] + ": " + o["name"] for r in results for o in
                                        r["obligations"]})[:250],
            "trusted_base": trusted_base(),
            "evaluations": (searched or {}).get("evaluations", 0),
            "distinct_nontrivial": (searched or {}).get("distinct", 0),
            "rule": "bounded validation of the assumed dependency contracts: the property's contract evaluated on the "
                    "real code with random inputs; distinct by recorded choices",
            "concrete_checks": (searched or {}).get("per_check"),
            "samples": (searched or {}).get("samples"),
        },
        "assumptions": assumptions(cid),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failed) + len(inputs),
    }
    if searched and searched.get("error"):
        ev["coverage"]["concrete_error"] = searched["error"]
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        ev["coverage"]["obligation_names"] = ev["coverage"]["obligation_names"][:60]
        txt = json.dumps(ev)
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        f.write(txt)

    # -- report
    print("%s: %d of %d obligations discharged in %d units (%s), %d functions under contract, solver %.1f s, "
          "%d concrete evaluations, %.1f s" % (cid, nok, nobl, len(results), ", ".join("%s %d" % x for x in
                                              sorted(backends.items())), len(under), solver_s,
                                              (searched or {}).get("evaluations", 0), time.time() - t0))
    for r in undecided:
        print("UNDECIDED %s: %s (bounded concrete check of the contract instead: %s evaluations, not counted as proved)"
              % (r["unit"], r["why"][:300], (searched or {}).get("evaluations", 0)))
    for k, txt in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (cid, txt))
    if not violated:
        return 0
    for u, o in failed[:10]:
        print("FAILED OBLIGATION %s: %s: %s" % (u, o["name"], str(o.get("why"))[:300]))
    for f in inputs:
        print("FAILING INPUT [%s] %s -> %s" % (f["check"], f["input"][:400], f["what"][:400]))
    print("VIOLATION property=%s replay=%s%s" % (cid, replay, "" if inputs else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
