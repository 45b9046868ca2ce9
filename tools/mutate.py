"""mutate.py gen DIR: write every first-order mutant of the package (one operator or constant changed) and keep those
the existing tests accept. mutate.py run DIR: run the concrete oracles on each survivor and list those nothing catches."""
import ast
import concurrent.futures as cf
import copy
import glob
import json
import os
import shutil
import subprocess
import sys

REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
           PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
SWAP = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div],
        ast.Mod: [ast.FloorDiv], ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt],
        ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.And: [ast.Or], ast.Or: [ast.And], ast.Is: [ast.IsNot],
        ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Pow: [ast.Mult]}


def sites(tree):
    """(description, function applying the change to the n-th node)"""
    nodes = list(ast.walk(tree))
    out = []
    for i, n in enumerate(nodes):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, (ast.BinOp, ast.AugAssign, ast.BoolOp)):
            for s in SWAP.get(type(n.op), []):
                out.append((i, ln, "%s->%s" % (type(n.op).__name__, s.__name__), ("op", s)))
        elif isinstance(n, ast.Compare):
            for s in SWAP.get(type(n.ops[0]), []):
                out.append((i, ln, "%s->%s" % (type(n.ops[0]).__name__, s.__name__), ("cmp", s)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((i, ln, "drop %s" % type(n.op).__name__, ("unary",)))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((i, ln, "%s->%s" % (n.value, not n.value), ("const", not n.value)))
            elif isinstance(n.value, int):
                out.append((i, ln, "%s->%s" % (n.value, n.value + 1), ("const", n.value + 1)))
                if n.value > 0:
                    out.append((i, ln, "%s->%s" % (n.value, n.value - 1), ("const", n.value - 1)))
            elif isinstance(n.value, float):
                out.append((i, ln, "%s->%s" % (n.value, n.value * 1.01 + 1e-9), ("const", n.value * 1.01 + 1e-9)))
            elif n.value is None:
                pass
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out.append((i, ln, "if True", ("test", True)))
            out.append((i, ln, "if False", ("test", False)))
        elif isinstance(n, ast.Call):
            if n.keywords:
                for k in range(len(n.keywords)):
                    out.append((i, ln, "drop keyword %s" % n.keywords[k].arg, ("kw", k)))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                out.append((i, ln, "swap args", ("swap",)))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "reshape", "flatten", "astype"):
                out.append((i, ln, "drop .%s()" % n.func.attr, ("recv",)))
            if len(n.args) == 1 and not n.keywords:
                out.append((i, ln, "drop call %s" % ast.unparse(n.func), ("arg",)))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            out.append((i, ln, "drop statement", ("pass",)))
    return out


def apply(tree, i, how):
    nodes = list(ast.walk(tree))
    n = nodes[i]
    if how[0] == "op":
        n.op = how[1]()
    elif how[0] == "cmp":
        n.ops[0] = how[1]()
    elif how[0] == "const":
        n.value = how[1]
    elif how[0] == "test":
        n.test = ast.Constant(how[1])
    elif how[0] == "kw":
        del n.keywords[how[1]]
    elif how[0] == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    else:
        new = {"unary": lambda: n.operand, "recv": lambda: n.func.value, "arg": lambda: n.args[0], "pass": ast.Pass}[how[0]]()

        class R(ast.NodeTransformer):
            def visit(self, x):
                if x is n:
                    return new
                return self.generic_visit(x)
        tree = R().visit(tree)
    return tree


def gen(d):
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "base")
    shutil.rmtree(base, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", REPO, base], check=True)
    muts = []
    for f in sorted(glob.glob(base + "/src/barotropic/*.py")):
        name = os.path.basename(f)
        if name in ("__init__.py",):
            continue
        src = open(f).read()
        for i, ln, desc, how in sites(ast.parse(src)):
            t = ast.parse(src)
            new = apply(t, i, how)
            ast.fix_missing_locations(new)
            muts.append((name, ln, desc, ast.unparse(new)))
    slots = []
    for k in range(int(os.environ.get("N", "4"))):
        s = os.path.join(d, "slot%d" % k)
        shutil.rmtree(s, ignore_errors=True)
        shutil.copytree(base, s)
        slots.append(s)
    import queue
    q = queue.Queue()
    for s in slots:
        q.put(s)
    out = open(d + "/survivors.jsonl", "w")

    def one(k):
        name, ln, desc, text = muts[k]
        s = q.get()
        try:
            p = s + "/src/barotropic/" + name
            open(p, "w").write(text)
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=s,
                                   env=dict(ENV, PYTHONPATH=s + "/src"), capture_output=True, text=True, timeout=120)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            shutil.copy(base + "/src/barotropic/" + name, p)
        finally:
            q.put(s)
        if ok:
            out.write(json.dumps({"id": k, "file": name, "line": ln, "what": desc, "text": text}) + "\n")
            out.flush()
        return ok
    with cf.ThreadPoolExecutor(len(slots)) as ex:
        n = sum(ex.map(one, range(len(muts))))
    print(len(muts), "mutants", n, "pass the tests")


def run(d, secs, cids):
    """concrete oracles only, one after another until one reports a failing input"""
    import queue
    n = int(os.environ.get("N", "4"))
    q = queue.Queue()
    for k in range(n):
        s = os.path.join(d, "run%d" % k)
        shutil.rmtree(s, ignore_errors=True)
        shutil.copytree(os.path.join(d, "base"), s)
        q.put(s)
    done = {}
    res = d + "/results.jsonl"
    if os.path.exists(res):
        for line in open(res):
            r = json.loads(line)
            done[r["id"]] = r
    out = open(res, "a")
    under = json.loads(subprocess.run(["python3-vt", "/verif/tools/mutate.py", "under"], capture_output=True, text=True,
                                      check=True).stdout)
    where = {}
    for f in glob.glob(os.path.join(d, "base/src/barotropic/*.py")):
        for node in ast.parse(open(f).read()).body:
            defs = [(node.name, node)] if isinstance(node, ast.FunctionDef) else [
                (node.name + "." + x.name, x) for x in node.body if isinstance(x, ast.FunctionDef)] if isinstance(
                node, ast.ClassDef) else []
            for q_, x in defs:
                lo = min([x.lineno] + [y.lineno for y in x.decorator_list])
                for l in range(lo, x.end_lineno + 1):
                    where[os.path.basename(f), l] = q_

    def order(m):
        f = where.get((m["file"], m["line"]), "?")
        own = under.get(m["file"][:-3] + "." + f, [])
        rest = sorted({c for k, v in under.items() if k.startswith(m["file"][:-3] + ".") for c in v})
        return f, [c for c in own if c != "C08"] + [c for c in rest if c not in own and not own] + (["C08"] if "C08" in own else [])

    def one(m):
        if m["id"] in done:
            return
        s = q.get()
        try:
            p = s + "/src/barotropic/" + m["file"]
            open(p, "w").write(m["text"])
            hit = None
            fun, mine = order(m)
            for c in mine if not cids else cids:
                o = s + "/o.json"
                if os.path.exists(o):
                    os.unlink(o)
                try:
                    subprocess.run([PY, "/verif/replay/run.py", c, "--seconds", str(secs), "--seed", "1", "--out", o],
                                   env=dict(ENV, VFY_FIRST="1", VFY_REPO=s, VFY_SRC=s + "/src/barotropic"), capture_output=True, timeout=secs + 60)
                except subprocess.TimeoutExpired:
                    continue
                if os.path.exists(o):
                    r = json.load(open(o))
                    if r["failures"]:
                        hit = (c, r["failures"][0]["check"])
                        break
                else:
                    hit = (c, "no output")
                    break
            shutil.copy(os.path.join(d, "base", "src/barotropic", m["file"]), p)
        finally:
            q.put(s)
        out.write(json.dumps({"id": m["id"], "file": m["file"], "line": m["line"], "what": m["what"], "fun": fun,
                              "tried": mine, "hit": hit}) + "\n")
        out.flush()
    ms = [json.loads(l) for l in open(d + "/survivors.jsonl")]
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, ms))


def under():
    import importlib
    sys.path.insert(0, "/verif")
    from vfy import unit
    m = {}
    for i in (*range(1, 22), 23):
        importlib.import_module("contracts.c%02d" % i)
    for u in unit.UNITS:
        for f in u.under:
            m.setdefault(f, set()).add(u.cid)
    print(json.dumps({k: sorted(v) for k, v in m.items()}))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    elif sys.argv[1] == "under":
        under()
    else:
        run(sys.argv[2], int(sys.argv[3]), sys.argv[4:])
