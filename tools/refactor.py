"""refactor.py SPEC.py: make /verif/refactor/<id>/patch.diff (edits that keep the behaviour) and confirm the tests pass"""
import json, os, runpy, shutil, subprocess, sys
for n, (props, edits) in runpy.run_path(sys.argv[1])["R"].items():
    if sys.argv[2:] and n not in sys.argv[2:]:
        continue
    s = "/tmp/refac-" + n
    shutil.rmtree(s, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", s], check=True)
    ok = True
    for f, a, b in edits:
        p = s + "/src/barotropic/" + f
        t = open(p).read()
        if t.count(a) != 1:
            print(n, "EDIT MATCHES %d TIMES: %r" % (t.count(a), a[:80]))
            ok = False
        open(p, "w").write(t.replace(a, b))
    d = "/verif/refactor/" + n
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", s, "diff"], capture_output=True, text=True).stdout)
    json.dump({"property": props.split()[0], "checks": props}, open(d + "/meta.json", "w"))
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=s, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONPATH=s + "/src"))
    print(n, "ok" if ok and t.returncode == 0 else "NOT OK " + t.stdout[-1200:])
    shutil.rmtree(s, ignore_errors=True)
