"""Concrete contract checks: the contracts of a property evaluated on the real code and its real dependencies.

Used (a) to look for a failing input once the verifier rejects an obligation, (b) as the bounded stand-in for a function
that is outside the verifier's reach, (c) on every run, briefly, as validation of the contracts assumed for numpy, scipy,
spharm, xarray, pywt, falwa and matplotlib. What is evaluated is bounded by time and says so.
"""
import hashlib
import os
import random
import sys
import time
import traceback
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
sys.dont_write_bytecode = True
SRC = os.path.join(os.environ.get("VFY_REPO", "/repo"), "src")
sys.path.insert(0, SRC)
import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")
ORACLES = []


class Fail(AssertionError):
    pass


def oracle(name, weight=1):
    def deco(f):
        ORACLES.append((name, f, weight))
        return f
    return deco


class Case:
    """random choices of a case, recorded for the report"""

    def __init__(self, seed):
        self.seed = seed
        self.rng = random.Random(seed)
        self.np = np.random.default_rng(seed)
        self.log = []
        self.guards = []

    def note(self, k, v):
        self.log.append("%s=%s" % (k, short(v)))
        return v

    def pick(self, k, xs):
        return self.note(k, self.rng.choice(list(xs)))

    def int(self, k, a, b):
        return self.note(k, self.rng.randint(a, b))

    def real(self, k, a, b):
        return self.note(k, self.rng.uniform(a, b))

    def guard(self, name, a):
        """the caller's array: must not be modified"""
        self.guards.append((name, a, np.array(a, copy=True)))
        return a

    def check_guards(self):
        for name, a, b in self.guards:
            if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
                raise Fail("%s was modified" % name)


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + "..."


def expect(cond, what, **kw):
    if not cond:
        raise Fail(what + "".join("; %s=%s" % (k, short(v)) for k, v in kw.items()))


def close(what, got, want, rtol=1e-9, atol=None, scale=None):
    """elementwise closeness relative to the magnitude of the expected values"""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Fail("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if got.dtype.kind == "O" or want.dtype.kind == "O" or want.dtype.kind in "Mm":
        if not np.all(got == want):
            raise Fail("%s: got %s, expected %s" % (what, short(got), short(want)))
        return
    if got.size == 0:
        return
    fin = np.isfinite(want)
    m = np.max(np.abs(want[fin])) if fin.any() else 0.
    if scale is not None:
        m = max(m, scale)
    tol = rtol * m + (atol if atol is not None else 1e-300)
    bad = np.where(fin, ~(np.abs(got - np.where(fin, want, 0)) <= tol), ~((got == want) | (np.isnan(got) & np.isnan(want))))
    if bad.any():
        k = tuple(int(i[0]) for i in np.nonzero(bad)) if got.ndim else ()
        raise Fail("%s: at index %s got %r, expected %r (tolerance %.3g)" % (what, k, got[k], want[k], tol))


def same(what, got, want):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or not np.array_equal(got, want, equal_nan=got.dtype.kind in "fc" and want.dtype.kind in "fc"):
        raise Fail("%s: got %s, expected %s" % (what, short(got), short(want)))


def raises(exc, f, what):
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Fail("%s: raised %s instead of %s" % (what, type(e).__name__, exc))
    raise Fail("%s: accepted, expected %s" % (what, exc))


def case_seed(seed, name, k):
    return int.from_bytes(hashlib.sha256(("%s|%s|%d" % (seed, name, k)).encode()).digest()[:6], "big")


def run_case(name, f, seed):
    c = Case(seed)
    try:
        f(c)
        c.check_guards()
        return c, None
    except Fail as e:
        return c, str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-4:])
        return c, "unexpected %s: %s (%s)" % (type(e).__name__, str(e)[:300], where)


def run(seconds, seed, only=None, max_fail=3, max_cases=None):
    t0 = time.time()
    todo = [(n, f, w) for n, f, w in ORACLES if not only or n == only]
    res = {"evaluations": 0, "per_check": {n: 0 for n, f, w in todo}, "failures": [], "samples": [], "distinct": 0}
    seen = set()
    k = 0
    failed = set()
    while todo:
        for n, f, w in todo:
            if n in failed:
                continue
            for q in range(w):
                if time.time() - t0 > seconds and k > 0:
                    break
                s = case_seed(seed, n, k * w + q)
                c, msg = run_case(n, f, s)
                res["evaluations"] += 1
                res["per_check"][n] += 1
                key = (n,) + tuple(c.log)
                if key not in seen:
                    seen.add(key)
                if len(res["samples"]) < 8 and k == 0 and q == 0:
                    res["samples"].append("%s: %s" % (n, ", ".join(c.log)[:300]))
                if msg is not None:
                    res["failures"].append({"check": n, "case_seed": s, "input": ", ".join(c.log)[:2000], "what": msg[:2000]})
                    failed.add(n)
                    break
        k += 1
        if len(failed) >= min(max_fail, len(todo)) or time.time() - t0 > seconds or (max_cases and k >= max_cases):
            break
    res["distinct"] = len(seen)
    res["seconds"] = round(time.time() - t0, 2)
    return res
