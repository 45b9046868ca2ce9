"""Verification units: contracts as Python functions run over all inputs, and the runner that discharges them"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from fractions import Fraction

from . import terms as T
from . import solver as S
from . import engine as E
from . import symnp as N
from . import stubs as D
from .terms import (Poly, B, TRUE, FALSE, ZERO, ONE, PI, const, band, bor, bnot, eq, ne, le, lt, ge, gt, ite, subst,
                    substb, is_var, gfresh, fresh, Unsupported, forall, implies, iff, psum, app, fn, floor)
from .engine import Num, SBool, SymSeq, topoly, tob, ctx, PathEnd, Explorer, Package, generic_eval
from .symnp import SymArray, NP, dim

# frame verification (C08): every array made by a contract outside of a call into the library belongs to the caller
FRAME = []


def in_library():
    f = sys._getframe(2)
    while f is not None:
        if "/barotropic/" in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


UNITS = []          # all registered units


class Unit:
    def __init__(self, cid, name, fun, under, bounded=None, max_paths=400, seconds=300, oblig_seconds=60):
        self.cid, self.name, self.fun, self.under = cid, name, fun, under
        self.bounded = bounded
        self.max_paths, self.seconds, self.oblig_seconds = max_paths, seconds, oblig_seconds
        self.variant = False

    @property
    def key(self):
        return self.cid + "/" + self.name


def unit(cid, name, under=(), **kw):
    def deco(f):
        UNITS.append(Unit(cid, name, f, list(under), **kw))
        return f
    return deco


# -- symbolic inputs -------------------------------------------------------------------------------
def real(name, pos=False, nonzero=False):
    return Num(T.var(name, "r", pos=pos, nonzero=nonzero or pos))


def integer(name, lo=None, hi=None, pos=False):
    v = T.var(name, "i", pos=pos, nonzero=pos)
    c = ctx()
    if pos:
        c.require(ge(v, ONE))
    if lo is not None:
        c.require(ge(v, const(lo)))
    if hi is not None:
        c.require(le(v, topoly(hi)))
    return Num(v)


# owners of inputs that stay floating point numbers while the others are of small or unsigned integer types
NARROW = [("",)] if os.environ.get("VFY_NARROW") else []


def small_integers(cid, *names, keep=()):
    """The same contracts for input arrays of a small or unsigned integer type, whose arithmetic may overflow"""
    def variant(u):
        def run(c):
            NARROW.append(keep)
            try:
                u.fun(c)
            finally:
                NARROW.pop()
        v = Unit(cid, u.name + ", small integers", run, u.under, u.bounded, u.max_paths * 2, u.seconds, u.oblig_seconds)
        v.variant = True
        return v
    found = [u for u in UNITS if u.cid == cid and not u.variant and any(u.name.startswith(n) for n in names)]
    assert all(any(u.name.startswith(n) for u in found) for n in names), names
    UNITS.extend(variant(u) for u in found)


def float_kind():
    """kind of the inputs that are floating point numbers unless small integers are asked for"""
    return "n" if NARROW else "f"


def uarray(name, shape, kind="f", owner=None):
    """Array of arbitrary values"""
    if NARROW and kind == "f" and owner is not None and owner not in NARROW[-1] and not in_library():
        kind = "n"
    sort = {"f": "r", "i": "i", "c": "c", "n": "r"}.get(kind)
    if FRAME and owner is None and not in_library():
        owner = name
    sh = tuple(topoly(x) for x in shape)
    if kind == "b":
        return SymArray(sh, "b", lambda i: T.pred(name, list(i)), owner=owner)
    return SymArray(sh, kind, lambda i: T.app(name, list(i), sort), owner=owner)


def el(a, *idx):
    """element of an array as a term"""
    return a.get(tuple(topoly(i) for i in idx))


def owned(a, owner):
    a.buf.owner = owner
    return a


def package(extra=None):
    pkg = Package(D.make(extra))
    pkg.constants
    for h in FRAME:
        h.package(pkg)
    return pkg


def own_object(o, owner):
    """mark all arrays reachable from an object's attributes as belonging to the caller"""
    for k, v in vars(o).items():
        if isinstance(v, SymArray):
            v.buf.owner = v.buf.owner or "%s.%s" % (owner, k)


class G:
    """A symbolic grid made by the real constructor, with its parameters as terms"""

    def __init__(self, pkg, name="g", n_min=2, ntrunc="default", trunc_min=1, **kw):
        c = ctx()
        p = (lambda s: s) if name == "g" else (lambda s: s + "_" + name)
        self.N = T.var(p("N"), "i", pos=True)
        c.require(ge(self.N, const(n_min)))
        self.r = T.var(p("r"), "r", pos=True)
        self.omega = T.var(p("omega"), "r", nonzero=False)
        self.res = const(180) / self.N
        self.nlat = self.N + 1
        self.nlon = self.N * 2
        self.ntarg = None
        self.nt = self.N
        if ntrunc == "sym":
            self.nt = T.var(p("nt"), "i", pos=trunc_min > 0)
            c.require(ge(self.nt, const(trunc_min)))
            c.require(le(self.nt, self.N))
            self.ntarg = Num(self.nt)
        self.grid = pkg.grid.Grid(Num(self.res), rsphere=Num(self.r), omega=Num(self.omega), ntrunc=self.ntarg, **kw)
        own_object(self.grid, "grid")
        for h in FRAME:
            h.watch("Grid", self.grid)
        self.ns = D.nspec(self.nt)

    # coordinates as terms
    def lat(self, j): return const(90) - topoly(j) * 180 / self.N
    def lon(self, i): return topoly(i) * 180 / self.N
    def phi(self, j): return PI / 2 - topoly(j) * PI / self.N
    def lam(self, i): return topoly(i) * PI / self.N

    @property
    def dlam(self): return PI / self.N

    @property
    def dphi(self): return -PI / self.N

    def f(self, j): return self.omega * 2 * app("sin", [self.phi(j)])

    def field(self, name, owner=True, kind="f"):
        return uarray(name, (self.nlat, self.nlon), kind, owner=name if owner else None)

    def profile(self, name, owner=True):
        return uarray(name, (self.nlat,), "f", owner=name if owner else None)

    def spec(self, name, owner=True):
        return uarray(name, (self.ns,), "c", owner=name if owner else None)


# -- obligations ----------------------------------------------------------------------------------------
def prove(name, goal):
    ctx().prove(name, goal)


def prove_eq(name, a, b):
    ctx().prove(name, eq(topoly(a), topoly(b)))


def prove_shape(name, a, shape):
    c = ctx()
    if not isinstance(a, SymArray):
        if isinstance(a, N.MaskedSel):
            a = a.to_array()
        else:
            c.violated(name + ".shape", "not an array: %r" % (type(a),))
            return False
    if a.ndim != len(shape):
        c.violated(name + ".shape", "rank %d" % a.ndim)
        return False
    c.prove(name + ".shape", band(*[eq(x, topoly(y)) for x, y in zip(a._shape, shape)]))
    return True


def prove_array(name, a, shape, f, hyp=None, kind=None):
    """a has the given shape and a[i...] == f(i...) for every index (where hyp(i...) holds)"""
    if isinstance(a, N.MaskedSel):
        a = a.to_array()
    if not prove_shape(name, a, shape):
        return
    shape = [topoly(x) for x in shape]
    vs = tuple(gfresh("ix") for _ in shape)
    x = a.get(vs)
    y = f(*vs)
    if isinstance(y, (SBool, bool, B)) or a.kind == "b":
        g = iff(tob(x), tob(y))
    else:
        y = topoly(y)
        g = eq(x if isinstance(x, Poly) else topoly(x), y)
    if hyp is not None:
        g = implies(tob(hyp(*vs)), g)
    ctx().prove(name, forall(list(zip(vs, shape)), g))


def prove_same(name, a, b):
    """two arrays are equal in shape and elements"""
    prove_array(name, a, b._shape, lambda *i: b.get(i))


def prove_raises(name, exc, thunk):
    c = ctx()
    try:
        thunk()
    except exc as e:
        if engine_gap(e):
            raise Unsupported("%s: %s" % (type(e).__name__, str(e)[:300]))
        c.prove(name, TRUE)
        return True
    except (PathEnd, Unsupported):
        raise
    except Exception as e:
        if engine_gap(e):
            raise Unsupported("%s: %s" % (type(e).__name__, str(e)[:300]))
        c.violated(name, "raised %s: %s instead" % (type(e).__name__, e))
        return False
    c.violated(name, "accepted")
    return False


def prove_is(name, cond, why=""):
    c = ctx()
    if cond:
        c.prove(name, TRUE)
    else:
        c.violated(name, why or "not the expected object")


class ConcreteFail(Exception):
    pass


# -- contracts in place of callees ----------------------------------------------------------------------
def replace(pkg, path, f):
    """Use contract f in place of the callee `module.Class.method` / `module.function` (kept as is when absent:
    then callers are verified against whatever they call)"""
    parts = path.split(".")
    o = pkg.load(parts[0])
    for p in parts[1:-1]:
        o = getattr(o, p)
    name = parts[-1]
    if name not in vars(o):
        return False
    old = vars(o)[name]
    if isinstance(old, property) and not isinstance(f, property):
        f = property(f)
    if isinstance(old, staticmethod):
        f = staticmethod(f)
    if isinstance(old, classmethod):
        f = classmethod(f)
    setattr(o, name, f)
    return True


_names = []


def engine_gap(e):
    """an exception of the verifier's own making (an operation its stand-ins for numbers, arrays and libraries lack), not one
    of the verified code: the function is then outside the verifier's reach"""
    if isinstance(e, (AssertionError, ValueError)) or not e.__traceback__:
        return False
    mods = [m for k, m in list(sys.modules.items()) if k.split(".")[0] in ("vfy", "contracts") and m]
    if len(_names) != len(mods):
        real = {"Grid", "State", "StateList", "GridRegion", "GridRegionIndexer", "Orography", "RHS", "BarotropicModel", "StatePlotter"}
        _names[:] = mods
        engine_gap.names = {n for m in mods for n, o in vars(m).items() if isinstance(o, type) and o.__module__ == m.__name__
                            and len(n) > 2 and n not in real}
    if isinstance(e, (TypeError, AttributeError)):
        import re
        if set(re.findall(r"'(\w+)'", str(e))) & engine_gap.names:
            return True
    f = traceback.extract_tb(e.__traceback__)[-1]
    if isinstance(e, (TypeError, AttributeError, KeyError, IndexError, NotImplementedError, NameError)):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        if f.filename.startswith((here + "/vfy/", here + "/contracts/")) and not (f.line or "").lstrip().startswith("raise "):
            return True
    return False


# -- runner -----------------------------------------------------------------------------------------------
def guarded(u):
    def body(c):
        try:
            u.fun(c)
        except PathEnd:
            raise
        except Unsupported:
            raise
        except RecursionError as e:
            c.violated("no-exception", "RecursionError")
        except Exception as e:
            if engine_gap(e):
                if os.environ.get("VFY_DEBUG"):
                    traceback.print_exc()
                raise Unsupported("%s: %s" % (type(e).__name__, str(e)[:300]))
            tb = traceback.extract_tb(e.__traceback__)
            where = ""
            for f in reversed(tb):
                if "/barotropic/" in f.filename:
                    where = " at %s:%s" % (os.path.basename(f.filename), f.name)
                    break
            c.violated("no-exception", "%s: %s%s" % (type(e).__name__, str(e)[:300], where))
            if os.environ.get("VFY_DEBUG"):
                traceback.print_exc()
    return body


def run_unit(u):
    """verify one unit; result is a plain dict"""
    t0 = time.time()
    S.STATS.update({k: 0 for k in S.STATS})
    res = {"unit": u.key, "under": u.under, "obligations": [], "status": "ok", "why": "", "bounded": u.bounded}
    ex = Explorer(u.key, guarded(u), u.max_paths, u.seconds)
    try:
        ex.run()
    except Unsupported as e:
        res["status"] = "undecided"
        res["why"] = "%s" % (e,)
        if os.environ.get("VFY_DEBUG"):
            traceback.print_exc()
    except Exception as e:
        res["status"] = "undecided"
        res["why"] = "engine: %s: %s" % (type(e).__name__, e)
        if os.environ.get("VFY_DEBUG"):
            traceback.print_exc()
    notes = dict(ex.notes)
    done = {}
    failed = 0
    for name, goal, hyps, c in ex.obls:
        key = (name, goal, frozenset(hyps))
        if key in done:
            continue
        t1 = time.time()
        S.EXTRA_INST[:] = [lambda hy, iv, c=c: E.threshold_axioms(c, iv)]
        ok, backend, why = False, None, None
        if failed < 6:
            old = E._ctx[0]
            E._ctx[0] = c
            try:
                ok, backend, why = S.prove(list(hyps), goal, u.oblig_seconds)
            except Unsupported as e:
                ok, backend, why = False, None, "unsupported: %s" % e
            except Exception as e:
                ok, backend, why = False, None, "engine: %s: %s" % (type(e).__name__, e)
                if os.environ.get("VFY_DEBUG"):
                    traceback.print_exc()
            finally:
                E._ctx[0] = old
        else:
            why = "skipped after earlier failures"
        done[key] = ok
        o = {"name": name, "ok": bool(ok), "backend": backend, "s": round(time.time() - t1, 3)}
        if not ok:
            failed += 1
            if goal is FALSE and name in notes:
                why = notes[name]
            o["why"] = str(why)[:1500]
            o["goal"] = T.showb(goal)[:int(os.environ.get("VFY_GOAL", 1500))]
            o["path"] = [T.showb(h)[:200] for h in hyps[-12:]]
        res["obligations"].append(o)
    # vacuity: some completed path whose hypotheses are not contradictory
    if res["status"] == "ok":
        if not res["obligations"]:
            res["status"], res["why"] = "undecided", "no obligations generated"
        else:
            live = False
            for name, goal, hyps, c in ex.obls:
                S.EXTRA_INST[:] = [lambda hy, iv, c=c: E.threshold_axioms(c, iv)]
                if S.smt_check(S.instantiate(S.expand(hyps), S.EMPTYFV), 3000)[0] != "unsat":
                    live = True
                    break
            if not live:
                res["status"], res["why"] = "undecided", "vacuous: contradictory preconditions"
    res["paths"] = ex.paths
    res["seconds"] = round(time.time() - t0, 2)
    res["stats"] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in S.STATS.items()}
    res["failed"] = [o for o in res["obligations"] if not o["ok"]]
    return res


def load_contracts(cid):
    UNITS.clear()
    importlib.import_module("contracts." + cid.lower())
    return [u for u in UNITS if u.cid == cid]


def _worker(args):
    cid, k = args
    us = load_contracts_cached(cid)
    return run_unit(us[k])


_lc = {}


def load_contracts_cached(cid):
    if cid not in _lc:
        m = importlib.import_module("contracts." + cid.lower())
        _lc[cid] = [u for u in UNITS if u.cid == cid]
    return _lc[cid]


def run_all(cid, procs=8, only=None, timeout=700, thorough=False):
    us = load_contracts_cached(cid)
    idx = [k for k, u in enumerate(us) if not only or only in u.name]
    if procs <= 1 or len(idx) <= 1:
        return [run_unit(us[k]) for k in idx]
    cx = mp.get_context("fork")
    out = []
    with cx.Pool(min(procs, len(idx)), maxtasksperchild=1) as pool:
        rs = [(k, pool.apply_async(_worker, ((cid, k),))) for k in idx]
        t0 = time.time()
        for k, r in rs:
            try:
                out.append(r.get(max(1, timeout - (time.time() - t0))))
            except mp.TimeoutError:
                out.append({"unit": us[k].key, "under": us[k].under, "obligations": [], "status": "undecided",
                            "why": "time limit", "bounded": None, "paths": 0, "seconds": timeout, "stats": {},
                            "failed": []})
            except Exception as e:
                out.append({"unit": us[k].key, "under": us[k].under, "obligations": [], "status": "undecided",
                            "why": "worker: %s" % e, "bounded": None, "paths": 0, "seconds": 0, "stats": {},
                            "failed": []})
        pool.terminate()
    return out


def main():
    cid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    procs = int(os.environ.get("VFY_PROCS", "1"))
    for r in run_all(cid, procs, only):
        nb = sum(o["ok"] for o in r["obligations"])
        print("%-50s %-9s %3d/%3d obligations  %3d paths %6.1fs %s" % (r["unit"], r["status"], nb, len(r["obligations"]),
                                                                      r["paths"], r["seconds"], r["why"]))
        for o in r["failed"][:8]:
            print("    FAIL", o["name"], "|", o.get("why"))
            print("         goal:", o["goal"][:int(os.environ.get("VFY_GOAL", 600))])
            print("         path:", o["path"][-6:])


if __name__ == "__main__":
    from vfy import unit as _u
    _u.main()
