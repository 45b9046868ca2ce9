"""Proof obligations: hypotheses |- goal over vfy.terms, discharged by normal forms, z3 and cvc5."""
import math
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import terms as T
from .terms import (Poly, B, TRUE, FALSE, ZERO, ONE, PI, INF, const, subst, substb, band, bor, bnot, eq, eq0, le, lt,
                    lt0, le0, ge, gt, single_atom, is_var, atom_poly, gfresh, Unsupported)

STATS = {"normal-form": 0, "z3": 0, "cvc5": 0, "queries_z3": 0, "queries_cvc5": 0, "solver_s": 0.0, "unknown": 0}
TIMEOUT_MS = 8000
USE_CVC5 = True


APP_AXIOMS = {}          # app name -> f(z3 args, z3 result) -> [z3 axioms]


class NoSMT(Exception):
    pass


_Q = z3.RealVal


class Tr:
    """Translation of terms to z3 with axiom instances for the atoms that occur"""

    def __init__(self):
        self.pc = {}
        self.ac = {}
        self.bc = {}
        self.ax = []
        self.apps = {}
        self.preds = {}
        self.queue = []

    def poly(self, p):
        r = self.pc.get(p)
        if r is not None:
            return r
        if p.sort == "c":
            raise NoSMT()
        isint = p.sort == "i"
        terms = []
        for m, c in p.t.items():
            fs = []
            for a, e in m:
                x = self.atom(a)
                if not isint and a.sort == "i":
                    x = z3.ToReal(x)
                if e < 0:
                    x = self.inverse(a)
                    e = -e
                fs.extend([x] * e)
            if isint:
                cc = z3.IntVal(int(c))
            else:
                cc = z3.Q(c.numerator, c.denominator)
            if not fs:
                terms.append(cc)
            else:
                pr = fs[0]
                for f in fs[1:]:
                    pr = pr * f
                terms.append(pr if c == 1 else cc * pr)
        if not terms:
            r = z3.IntVal(0) if isint else z3.RealVal(0)
        else:
            r = terms[0]
            for x in terms[1:]:
                r = r + x
        self.pc[p] = r
        return r

    def real(self, p):
        x = self.poly(p)
        return z3.ToReal(x) if x.is_int() else x

    def inverse(self, a):
        key = ("inv", a)
        r = self.ac.get(key)
        if r is None:
            r = z3.Real("inv_%d" % a.id)
            self.ac[key] = r
            x = self.atom(a)
            x = z3.ToReal(x) if x.is_int() else x
            self.ax.append(x * r == 1)
            if a.pos:
                self.ax.append(r > 0)
        return r

    def atom(self, a):
        r = self.ac.get(a)
        if r is not None:
            return r
        k = a.kind
        if a.sort == "c":
            raise NoSMT()
        if k == "ite":
            c = self.b(a.data[0])
            x, y = self.poly(a.data[1]), self.poly(a.data[2])
            if a.sort == "r":
                x = z3.ToReal(x) if x.is_int() else x
                y = z3.ToReal(y) if y.is_int() else y
            r = z3.If(c, x, y)
            self.ac[a] = r
            return r
        name = "%s_%d" % (k if k != "app" else a.data[0], a.id)
        r = z3.Int(name) if a.sort == "i" else z3.Real(name)
        self.ac[a] = r
        if a.pos:
            self.ax.append(r > 0)
        elif a.nonzero:
            self.ax.append(r != 0)
        self.queue.append(a)
        return r

    def flush(self):
        """axiom instances for newly seen atoms"""
        while self.queue:
            a = self.queue.pop()
            r = self.ac[a]
            k = a.kind
            if k == "var":
                if a is single_atom(PI):
                    self.ax.append(z3.And(r > z3.Q(314159, 100000), r < z3.Q(314160, 100000)))
                if a is single_atom(INF):
                    self.ax.append(r > 10 ** 9)
            elif k == "floor":
                x = self.real(a.data[0])
                self.ax.append(z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1))
            elif k == "inv":
                try:
                    x = self.real(a.data[0])
                    self.ax.append(z3.If(x == 0, r == 0, x * r == 1))
                except NoSMT:
                    pass
            elif k == "app":
                self.app_axioms(a, r)
            elif k == "fn" and a.data[0] == "SUM" and len(a.data[2]) == 1:
                bs, body = a.data[2][0]
                if nonneg(body):
                    self.ax.append(r >= 0)
                    if len(bs) == 1 and nonneg(ONE - body):
                        n = self.poly(bs[0][1])
                        self.ax.append(z3.Or(r <= n, r == 0))

    def app_axioms(self, a, r):
        name, args = a.data
        group = self.apps.setdefault(name, [])
        try:
            za = [self.real(x) for x in args]
        except NoSMT:
            if name == "abs":
                self.ax.append(z3.And(r >= 0, r * r == self.poly(T.CABS_SQUARE[0](args[0]))))
            return
        if name in ("sin", "cos"):
            self.ax.append(z3.And(r <= 1, r >= -1))
            pi = self.real(PI)
            x = za[0]
            other = self.apps.get("cos" if name == "sin" else "sin", [])
            for b2, args2, r2, za2 in other:
                if args2 == args:
                    self.ax.append(r * r + r2 * r2 == 1)
            if name == "sin":
                self.ax.append(z3.Implies(z3.And(x > 0, x < pi), r > 0))
                self.ax.append(z3.Implies(z3.And(x < 0, x > -pi), r < 0))
                self.ax.append(z3.Implies(x == 0, r == 0))
                self.ax.append(z3.Implies(z3.And(x < pi / 2, x > -3 * pi / 2), r < 1))
                self.ax.append(z3.Implies(z3.And(x > -pi / 2, x < 3 * pi / 2), r > -1))
                for b2, args2, r2, za2 in group:
                    y = za2[0]
                    rng = z3.And(x >= -pi / 2, x <= pi / 2, y >= -pi / 2, y <= pi / 2)
                    self.ax.append(z3.Implies(rng, z3.And((x < y) == (r < r2), (x == y) == (r == r2))))
            else:
                self.ax.append(z3.Implies(z3.And(x > -pi / 2, x < pi / 2), r > 0))
                self.ax.append(z3.Implies(z3.And(x > pi / 2, x < 3 * pi / 2), r < 0))
                self.ax.append(z3.Implies(x == 0, r == 1))
                self.ax.append(z3.Implies(z3.And(x != 0, x > -pi, x < pi), r < 1))
                for b2, args2, r2, za2 in group:
                    y = za2[0]
                    rng = z3.And(x >= 0, x <= pi, y >= 0, y <= pi)
                    self.ax.append(z3.Implies(rng, z3.And((x < y) == (r > r2), (x == y) == (r == r2))))
        elif name in APP_AXIOMS:
            self.ax.extend(APP_AXIOMS[name](za, r))
        elif name == "exp":
            self.ax.append(r > 0)
        elif name == "sqrt":
            self.ax.append(z3.Implies(za[0] >= 0, z3.And(r >= 0, r * r == za[0])))
        elif name == "abs":
            self.ax.append(r >= 0)
        elif name == "arcsin":
            pi = self.real(PI)
            self.ax.append(z3.And(r >= -pi / 2, r <= pi / 2))
        for b2, args2, r2, za2 in group:
            if len(args2) == len(args):
                self.ax.append(z3.Implies(z3.And(*[u == v for u, v in zip(za, za2)]) if za else True, r == r2))
        group.append((a, args, r, za))

    def b(self, b):
        r = self.bc.get(b)
        if r is not None:
            return r
        k = b.kind
        if k == "true":
            r = z3.BoolVal(True)
        elif k == "false":
            r = z3.BoolVal(False)
        elif k == "le":
            r = self.poly(_scaled(b.data[0])) <= 0
        elif k == "lt":
            r = self.poly(_scaled(b.data[0])) < 0
        elif k == "eq":
            r = self.poly(_scaled(b.data[0])) == 0
        elif k == "not":
            r = z3.Not(self.b(b.data[0]))
        elif k == "and":
            r = z3.And(*[self.b(x) for x in b.data])
        elif k == "or":
            r = z3.Or(*[self.b(x) for x in b.data])
        elif k == "pred":
            r = z3.Bool("p_%d" % b.id)
            name, args = b.data
            za = [self.real(x) for x in args]
            for args2, r2, za2 in self.preds.setdefault(name, []):
                if len(za2) == len(za):
                    self.ax.append(z3.Implies(z3.And(*[u == v for u, v in zip(za, za2)]) if za else True, r == r2))
            self.preds[name].append((args, r, za))
        elif k == "forall":
            r = z3.Bool("fa_%d" % b.id)
        else:
            raise Unsupported("bool kind " + k)
        self.bc[b] = r
        return r


def nonneg(p):
    """is a term nonnegative by its form?"""
    if p.sort == "c":
        return False
    for m, c in p.t.items():
        if c < 0:
            # a constant less an ite of constants
            return all(nonneg(x) for x in _cases(p)) if _cases(p) else False
        for a, e in m:
            if not (a.pos or e % 2 == 0 or (a.kind == "app" and a.data[0] in ("abs", "sqrt")) or (
                    a.kind == "ite" and e > 0 and nonneg(a.data[1]) and nonneg(a.data[2])) or (
                    a.kind == "fn" and a.data[0] == "SUM" and e > 0 and len(a.data[2]) == 1
                    and not isinstance(a.data[2][0][1], B) and nonneg(a.data[2][0][1]))):
                return False
    return True


def _cases(p):
    for m, c in p.t.items():
        for a, e in m:
            if a.kind == "ite" and len(m) == 1 and e == 1 and a.data[1].const() is not None and a.data[2].const() is not None:
                rest = p - T._poly({m: c})
                if rest.const() is None:
                    return []
                return [rest + a.data[1] * const(c), rest + a.data[2] * const(c)]
    return []


def _scaled(p):
    """integer polynomials with fractional coefficients, multiplied to integer coefficients (for tightening)"""
    if p.sort != "r" or not p.t:
        return p
    den = 1
    for m, c in p.t.items():
        if any(a.sort != "i" or e < 0 for a, e in m):
            return p
        den = den * c.denominator // math.gcd(den, c.denominator)
    return p * den


def smt_check(hyps, timeout_ms=None, want_model=False):
    """sat / unsat / unknown of the conjunction of hyps"""
    tr = Tr()
    s = z3.Solver()
    s.set("timeout", timeout_ms or TIMEOUT_MS)
    for h in hyps:
        try:
            s.add(tr.b(h))
        except NoSMT:
            continue          # dropping a hypothesis is sound for unsat answers
    tr.flush()
    for a in tr.ax:
        s.add(a)
    t0 = time.time()
    STATS["queries_z3"] += 1
    r = s.check()
    STATS["solver_s"] += time.time() - t0
    res = str(r)
    model = None
    if r == z3.unknown and USE_CVC5 and not want_model:
        res2 = _cvc5(s, timeout_ms or TIMEOUT_MS)
        if res2 == "unsat":
            STATS["cvc5"] += 1
            return "unsat", None, "cvc5"
    if r == z3.sat and want_model:
        m = s.model()
        model = {}
        for a, x in tr.ac.items():
            if isinstance(a, T.Atom) and a.kind in ("var", "app"):
                v = m.eval(x, model_completion=True)
                model[T.show_atom(a)] = str(v)
    return res, model, "z3"


def _cvc5(s, timeout_ms):
    try:
        txt = "(set-logic ALL)\n" + s.to_smt2()
    except Exception:
        return "unknown"
    t0 = time.time()
    STATS["queries_cvc5"] += 1
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, "--nl-cov", f.name], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    except Exception:
        out = "unknown"
    finally:
        try:
            os.unlink(f.name)
        except OSError:
            pass
    STATS["solver_s"] += time.time() - t0
    return out if out in ("sat", "unsat") else "unknown"


_cache = {}


_skolem = {}


def witness(h):
    """for a negated universal statement: an index that violates it"""
    w = _skolem.get(h)
    if w is None:
        bs, body = h.data[0].data
        mp = {bv: gfresh("sk", "i") for bv, n in bs}
        w = band(*[band(ge(mp[bv], ZERO), lt(mp[bv], subst(n, mp))) for bv, n in bs], bnot(substb(body, mp)))
        _skolem[h] = w
    return w


def expand(hyps):
    """Flatten conjunctions, deduplicate, give negated universal statements a witness"""
    out = {}
    queue = list(hyps)[::-1]
    while queue:
        h = queue.pop()
        if h.kind == "and":
            queue.extend(h.data[::-1])
        elif h is not TRUE and h not in out:
            out[h] = True
            if h.kind == "not" and h.data[0].kind == "forall":
                queue.append(witness(h))
    return list(out)


def entails(hyps, goal, timeout_ms=2000):
    """True only if hyps |- goal could be established (SMT)"""
    if goal is TRUE:
        return True
    hyps = expand(hyps)
    if goal in hyps or FALSE in hyps:
        return True
    key = ("ent", frozenset(hyps), goal, timeout_ms)
    r = _cache.get(key)
    if r is None:
        try:
            hy = relevant(hyps, goal.fv)
            hy2 = instantiate(hy, goal.fv, goal)
            r = smt_check(hy2 + _neg(goal, hy), timeout_ms)[0] == "unsat"
            if not r and len(hy) < len(hyps):
                r = smt_check(instantiate(hyps, goal.fv, goal) + _neg(goal, hyps), timeout_ms)[0] == "unsat"
        except NoSMT:
            r = False
        _cache[key] = r
    return r


def relevant(hyps, fv):
    """Hypotheses connected to fv through shared variables (cone of influence)"""
    fv = set(fv)
    rest = list(hyps)
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for h in rest:
            if not h.fv or (h.fv & fv):
                out.append(h)
                fv |= h.fv
                changed = True
            else:
                keep.append(h)
        rest = keep
    return out


def feasible(hyps, timeout_ms=1500):
    hyps = expand(hyps)
    if FALSE in hyps:
        return False
    key = ("sat", frozenset(hyps))
    r = _cache.get(key)
    if r is None:
        r = smt_check(instantiate(hyps, EMPTYFV), timeout_ms)[0] != "unsat"
        _cache[key] = r
    return r


EMPTYFV = frozenset()
EXTRA_INST = []      # callables(int vars) -> list of B instances, set by the engine (threshold axioms)


def _neg(goal, hyps):
    """negated goal, with universal parts of it instantiated like hypotheses"""
    n = bnot(goal)
    parts = list(n.data) if n.kind == "and" else [n]
    if any(x.kind == "forall" for x in parts):
        fv = set(goal.fv)
        for h in hyps:
            fv |= h.fv
        iv = [a for a in fv if a.sort == "i" and a.kind == "var"]
        return _inst(parts, iv) + [x for x in parts if x.kind == "forall"]
    return [n]


EXT_NAMES = ("ARGMAX", "ARGMIN", "MAX", "MIN")
_ext_cache = {}
_ext_wit = {}


def ext_atoms(x):
    """extrema occurring in x outside of bound bodies"""
    if isinstance(x, tuple):
        return frozenset().union(*[ext_atoms(y) for y in x]) if x else EMPTYFV
    if isinstance(x, T.Poly):
        out = EMPTYFV
        for m in x.t:
            for a, e in m:
                out |= ext_atoms(a)
        return out
    if not isinstance(x, (B, T.Atom)):
        return EMPTYFV
    r = _ext_cache.get(x)
    if r is None:
        if isinstance(x, B):
            r = EMPTYFV if x.kind == "forall" else ext_atoms(x.data)
        elif x.kind == "fn":
            r = ext_atoms(x.data[1])
            if x.data[0] in EXT_NAMES and not x.data[1] and len(x.data[2]) == 1 and not isinstance(x.data[2][0][1], B):
                r |= {x}
        else:
            r = ext_atoms(x.data)
        _ext_cache[x] = r
    return r


def ext_facts(bs, ivars, wits=None):
    """facts about maxima and minima: bound of all values at the integer variables in sight, attained at an index"""
    ats = frozenset().union(*[ext_atoms(b) for b in bs]) if bs else ()
    out = []
    for a in sorted(ats, key=lambda a: a.id)[:6]:
        name = a.data[0]
        bs_, body = a.data[2][0]
        r = atom_poly(a)
        at = lambda ts: subst(body, {b: t for (b, n), t in zip(bs_, ts)})
        inside = lambda ts: band(*[band(ge(t, ZERO), lt(t, n)) for (b, n), t in zip(bs_, ts)])
        ok = band(*[T.gt(n, ZERO) for b, n in bs_])
        order = le if name.endswith("MAX") else ge
        if name.startswith("ARG"):
            out.append(bor(bnot(ok), inside([r])))
            top = at([r])
        else:
            w = _ext_wit.get(a)
            if w is None:
                w = _ext_wit[a] = [gfresh("wit", "i") for _ in bs_]
            if wits is not None:
                wits.append(w)
            out.append(bor(bnot(ok), band(inside(w), eq(at(w), r))))
            top = r
        cands = [[]]
        for b, n in bs_:
            cands = [c + [atom_poly(v)] for c in cands for v in ivars if not any(v in n2.fv for _, n2 in bs_)][:24]
        for ts in cands:
            out.append(bor(bnot(inside(ts)), order(at(ts), top)))
    return out


def instantiate(hyps, fv, goal=None):
    """Instantiate quantified hypotheses (and engine axioms) at the integer variables in sight"""
    hyps = list(hyps)
    allfv = set(fv)
    for h in hyps:
        allfv |= h.fv
    ivars = [a for a in allfv if a.sort == "i" and a.kind == "var"]
    out = _inst(hyps, ivars)
    for f in EXTRA_INST:
        out.extend(f(out, ivars))
    wits = []
    out.extend(ext_facts(out if goal is None else out + [goal], ivars, wits))
    out.extend(h for h in hyps if h.kind == "forall")
    for w in wits[:4]:
        out.extend(_inst([h for h in hyps if h.kind == "forall" and len(h.data[0]) == len(w)], [T.is_var(v) for v in w]))
    return out


def _inst(hyps, ivars):
    out = []
    for h in hyps:
        if h.kind == "forall":
            bs, body = h.data
            cands = [[]]
            for bv, n in bs:
                cands = [c + [(bv, n, atom_poly(v))] for c in cands for v in ivars if v not in n.fv][:40]
            for c in cands:
                mp = {bv: t for bv, n, t in c}
                g = [bor(lt(t, ZERO), le(n, t)) for bv, n, t in c]
                out.append(bor(*(g + [substb(body, mp)])))
        else:
            out.append(h)
    return out


# -- equality prover --------------------------------------------------------------------
class Prover:
    def __init__(self, hyps, depth=0, budget=None, rewrite=True):
        self.hyps = expand(hyps)
        self.depth = depth
        self.budget = budget or {"n": 400, "t": time.time() + 120}
        self.why = None
        self.backend = "normal-form"
        self.eqs = []
        if rewrite:
            self._orient()

    def _orient(self):
        """Use equality hypotheses var = term as rewriting (substitution)"""
        mp = {}
        for _ in range(6):
            done = True
            for h in self.hyps:
                if h.kind == "eq":
                    sol = solve_eq(h.data[0])
                    if sol:
                        a, t = sol
                        done = False
                        self.hyps = expand([substb(x, {a: t}) for x in self.hyps if x is not h])
                        mp = {k: subst(v, {a: t}) for k, v in mp.items()}
                        mp[a] = t
                        break
            if done:
                break
        self.map = mp
        # kept for axioms that mention the variables replaced
        self.hyps.extend(eq(atom_poly(a), t) for a, t in mp.items())

    def fail(self, why):
        if self.why is None:
            self.why = why
        return False

    def prove(self, goal):
        goal = substb(goal, self.map)
        return self._prove(goal)

    def _prove(self, goal):
        if goal is TRUE or goal in self.hyps or FALSE in self.hyps:
            return True
        if goal is FALSE:
            if not feasible(self.hyps, 4000):
                return True
            return self.fail("goal is false")
        k = goal.kind
        if k == "and":
            return all(self._prove(x) for x in goal.data)
        if k == "forall":
            bs, body = goal.data
            mp = {}
            hy = []
            for bv, n in bs:
                v = gfresh("k")
                mp[bv] = v
                hy += [le(ZERO, v), lt(v, n)]
            return self.sub(hy).run(self, substb(body, mp))
        if k == "eq":
            return self.zero(goal.data[0])
        if k == "or":
            # assume the negation of all but the (single) equality/forall disjunct
            hard = [x for x in goal.data if x.kind in ("forall", "eq")]
            for x in hard[:4]:
                others = [bnot(y) for y in goal.data if y is not x]
                pr = self.sub(others)
                if FALSE in pr.hyps or not feasible(pr.hyps):
                    return True
                if pr.run(self, x):
                    return True
        return self.smt(goal)

    def run(self, parent, goal):
        r = self.prove(goal)
        if not r:
            parent.fail(self.why)
        if self.backend != "normal-form":
            parent.backend = self.backend
        return r

    def sub(self, extra):
        p = Prover(self.hyps + list(extra), self.depth + 1, self.budget)
        return p

    def smt(self, goal, timeout=None):
        if time.time() > self.budget["t"]:
            return self.fail("time budget exhausted at " + T.showb(goal)[:400])
        try:
            hy = instantiate(relevant(self.hyps, goal.fv), goal.fv, goal)
            r, _, be = smt_check(hy + _neg(goal, self.hyps), timeout)
            if r != "unsat" and len(hy) < len(self.hyps):
                r, _, be = smt_check(instantiate(self.hyps, goal.fv, goal) + _neg(goal, self.hyps), timeout)
        except NoSMT:
            return self.fail("outside SMT: " + T.showb(goal)[:400])
        if r == "unsat":
            self.backend = be
            return True
        if r == "unknown":
            STATS["unknown"] += 1
        return self.fail("%s: %s" % (r, T.showb(goal)[:600]))

    def known(self, c):
        """True/False if the condition is decided by the hypotheses, else None"""
        if c in self.hyps:
            return True
        n = bnot(c)
        if n in self.hyps:
            return False
        if entails(self.hyps, c):
            return True
        if entails(self.hyps, n):
            return False
        return None

    def zero(self, d):
        """prove d == 0"""
        if not d.t:
            return True
        if d.const() is not None:
            if not feasible(self.hyps, 4000):
                return True
            return self.fail("constant difference %s under %s" % (T.show(d), [T.showb(h) for h in self.hyps][:12]))
        self.budget["n"] -= 1
        if self.budget["n"] < 0 or time.time() > self.budget["t"]:
            return self.fail("budget exhausted at %s == 0" % T.show(d)[:500])
        # 1. condition split
        conds = T._conds_of(d)
        conds = [c for c in conds if not T.bconds(c) - {c}] or list(conds)
        if conds and self.cancels(d):
            return True
        if conds:
            conds.sort(key=lambda c: c.id)
            table = {}
            split = None
            for c in conds:
                kn = self.known(c)
                if kn is None:
                    split = split or c
                else:
                    table[c] = T.blit(kn)
            if table:
                return self.zero(T.map_conds(d, table))
            # conditions with equalities first (they substitute)
            for c in conds:
                if c.kind == "eq":
                    split = c
                    break
            for val in (True, False):
                c = split if val else bnot(split)
                pr = self.sub([c])
                if FALSE in pr.hyps or not feasible(pr.hyps):
                    continue
                d2 = subst(T.map_conds(T.assume_p(d, split, val), {split: T.blit(val)}), pr.map)
                if not pr.zero(d2):
                    if pr.why:
                        self.fail(pr.why)
                    return False
                if pr.backend != "normal-form":
                    self.backend = pr.backend
            return True
        # 2. linear functionals: L(a) - L(b) with a == b pointwise
        d2 = self.merge_linear(d)
        if not d2.t:
            return True
        # 3. congruence of array functionals and applications
        if self.depth < 12:
            tbl = self.congruence(d2)
            if tbl:
                d3 = T.replace_atoms(d2, tbl)
                if d3 is not d2:
                    return self.zero(d3)
        half = half_angles(d2)
        if half:
            return self.zero(T.replace_atoms(d2, half))
        # 4. clear denominators known nonzero
        for m in d2.t:
            for a, e in m:
                if a.kind == "inv":
                    q = a.data[0]
                    if self.nonzero(q):
                        return self.zero(self.cleared(d2, a))
        # 5. SMT
        if d2.sort == "c":
            # equality of complex-valued terms: ring reasoning only
            return self.fail("no proof (complex): %s == 0" % T.show(d2)[:600])
        return self.smt(eq0(d2))

    def cancels(self, d):
        """d vanishes when its denominators are cleared, whatever the conditions in it"""
        for _ in range(4):
            for a in dict.fromkeys(a for m in d.t for a, e in m if a.kind == "inv"):
                if not T._conds_of(a.data[0]) and self.nonzero(a.data[0]):
                    d = self.cleared(d, a)
                    break
            else:
                return False
            if not d.t:
                return True
        return False

    def cleared(self, d, a):
        q = a.data[0]
        e2 = max(ee for mm in d.t for aa, ee in mm if aa is a)
        acc = ZERO
        for mm, c in d.t.items():
            ee = dict(mm).get(a, 0)
            rest = T._poly({tuple((x, y) for x, y in mm if x is not a): c})
            acc = acc + rest * (q ** (e2 - ee))
        return acc

    def nonzero(self, q):
        c = q.const()
        if c is not None:
            return c != 0
        if q.sort == "c":
            return False
        return entails(self.hyps, bnot(eq0(q)), 3000)

    def merge_linear(self, d):
        classes = {}
        for m in d.t:
            for a, e in m:
                if a.kind == "fn" and e == 1 and a.data[0] in T.LINEAR and len(a.data[2]) == 1:
                    bs, _ = a.data[2][0]
                    key = (a.data[0], a.data[1], tuple(n for _, n in bs))
                    classes.setdefault(key, []).append(a)
        for key, ats in sorted(classes.items(), key=lambda kv: -len(kv[1])):
            name, sargs, sizes = key
            vs = [gfresh("k") for _ in sizes]
            body = ZERO
            rest = ZERO
            for m, c in d.t.items():
                hit = None
                for a, e in m:
                    if a.kind == "fn" and e == 1 and a.data[0] == name and a.data[1] == sargs \
                            and len(a.data[2]) == 1 and tuple(n for _, n in a.data[2][0][0]) == sizes:
                        hit = a
                        break
                if hit is None:
                    rest = rest + T._poly({m: c})
                    continue
                bs, bd = hit.data[2][0]
                bd = subst(bd, {b: v for (b, _), v in zip(bs, vs)})
                cf = T._poly({tuple((x, y) for x, y in m if x is not hit): c})
                body = body + cf * bd
            if not body.t:
                d = rest
                continue
            hy = []
            for v, n in zip(vs, sizes):
                hy += [le(ZERO, v), lt(v, n)]
            if self.depth < 12:
                pr = self.sub(hy)
                if pr.zero(subst(body, pr.map)):
                    if pr.backend != "normal-form":
                        self.backend = pr.backend
                    d = rest
        return d

    def congruence(self, d):
        ats = [a for a in d.atoms() if a.kind in ("fn", "app") or (a.kind == "floor")]
        extra = []
        for a in d.atoms():
            if a.kind == "inv":
                extra += [x for x in a.data[0].atoms() if x.kind in ("fn", "app")]
        ats = list(dict.fromkeys(ats + extra))
        groups = {}
        for a in ats:
            if a.kind == "fn":
                key = ("fn", a.data[0], len(a.data[1]), tuple(len(bs) for bs, _ in a.data[2]))
            elif a.kind == "app":
                key = ("app", a.data[0], len(a.data[1]))
            else:
                key = ("floor",)
            groups.setdefault(key, []).append(a)
        tbl = {}
        for key, gs in groups.items():
            gs.sort(key=lambda a: a.id)
            reps = []
            for a in gs:
                for b in reps:
                    if self.same(a, b):
                        tbl[a] = atom_poly(b)
                        break
                else:
                    reps.append(a)
        return tbl

    def same(self, a, b):
        """are two atoms of the same kind equal (arguments provably equal)?"""
        key = ("same", a, b, frozenset(self.hyps))
        r = _cache.get(key)
        if r is not None:
            return r
        r = self._same(a, b)
        _cache[key] = r
        return r

    def _same(self, a, b):
        if a.kind == "app":
            return all(self.quiet_zero(x - y) for x, y in zip(a.data[1], b.data[1]))
        if a.kind == "floor":
            return self.quiet_zero(a.data[0] - b.data[0])
        if not all(self.quiet_zero(x - y) for x, y in zip(a.data[1], b.data[1])):
            return False
        for (bs1, b1), (bs2, b2) in zip(a.data[2], b.data[2]):
            hy = []
            m1, m2 = {}, {}
            for (v1, n1), (v2, n2) in zip(bs1, bs2):
                if not self.quiet_zero(n1 - n2):
                    return False
                v = gfresh("k")
                m1[v1] = v
                m2[v2] = v
                hy += [le(ZERO, v), lt(v, n1)]
            pr = self.sub(hy)
            if isinstance(b1, B) != isinstance(b2, B):
                return False
            if isinstance(b1, B):
                x, y = substb(b1, m1), substb(b2, m2)
                if x is not y and not pr.prove(T.iff(x, y)):
                    return False
                continue
            dd = subst(b1, m1) - subst(b2, m2)
            if not pr.zero(subst(dd, pr.map)):
                return False
        return True

    def quiet_zero(self, d):
        if not d.t:
            return True
        if d.const() is not None:
            return False
        pr = Prover(self.hyps, self.depth + 1, self.budget)
        return pr.zero(subst(d, pr.map))


def half_angles(d):
    """cos(2 x) = 2 cos(x)^2 - 1 where cos(x) or sin(x) occurs too"""
    trig = [a for a in d.atoms() if a.kind == "app" and a.data[0] in ("cos", "sin")]
    args = [a.data[1][0] for a in trig]
    out = {}
    for a in trig:
        if a.data[0] == "cos":
            for x in args:
                if not (x * 2 - a.data[1][0]).t:
                    out[a] = T.app("cos", [x]) ** 2 * 2 - ONE
    return out


def solve_eq(p):
    """p == 0 solved for a variable with coefficient +-1 (integers) or any constant (reals)"""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
            a = m[0][0]
            if a is single_atom(PI) or a is single_atom(INF):
                continue
            rest = p - T._poly({m: c})
            if a in rest.fv:
                continue
            t = rest * const(-1 / c)
            if a.sort == "i" and t.sort != "i":
                continue
            if a.sort == "r" and t.sort == "c":
                continue
            # keep flags sound: do not replace positive/nonzero variables by unflagged terms unless constant
            if a.nonzero and t.const() is None and not (is_var(t) is not None and is_var(t).nonzero):
                continue
            if best is None or a.id > best[0].id:
                best = (a, t)
    return best


def fn_atoms(x, out, seen):
    """all array functionals occurring in x, also inside of bound bodies"""
    if isinstance(x, (tuple, list)):
        for y in x:
            fn_atoms(y, out, seen)
    elif isinstance(x, T.Poly):
        if x not in seen:
            seen.add(x)
            for m in x.t:
                for a, _ in m:
                    fn_atoms(a, out, seen)
    elif isinstance(x, (B, T.Atom)):
        if x not in seen:
            seen.add(x)
            fn_atoms(x.data, out, seen)
            if isinstance(x, T.Atom) and x.kind == "fn":
                out.append(x)       # children first


def names_in(a):
    out = []
    fn_atoms(a, out, set())
    return frozenset(x.data[0] for x in out)


def merge_inside(pr, goal, seconds):
    """replace functionals by provably equal ones, innermost first, at every depth of the goal

    Bound variables of the surrounding binders are treated as arbitrary values, the equality is proved for all of them.
    """
    end = time.time() + seconds
    tried = set()
    for _ in range(12):
        ats = []
        fn_atoms(goal, ats, set())
        groups = {}
        for a in ats:
            key = (a.data[0], len(a.data[1]), tuple(len(bs) for bs, _ in a.data[2]), a.fv, names_in(a))
            groups.setdefault(key, []).append(a)
        tbl = {}
        for gs in sorted(groups.values(), key=lambda gs: min(a.hb for a in gs)):
            for k, a in enumerate(gs):
                for b in gs[:k]:
                    if b in tbl or (a, b) in tried:
                        continue
                    tried.add((a, b))
                    if time.time() > end:
                        return goal
                    free = sorted((v for v in a.fv if v.kind == "bvar"), key=lambda v: v.id)
                    mp = {v: gfresh("k") for v in free}
                    x, y = (T.single_atom(subst(atom_poly(z), mp)) for z in (a, b))
                    if x is None or y is None or x.kind != "fn" or y.kind != "fn":
                        continue
                    sub = Prover(pr.hyps, 1, {"n": 60, "t": min(end, time.time() + 5)}, rewrite=False)
                    if x is y or sub._same(x, y):
                        tbl[a] = atom_poly(b)
                        break
            if tbl:
                break       # the functionals around change
        if not tbl:
            return goal
        goal = T.replace_atoms(goal, tbl)
    return goal


def prove(hyps, goal, seconds=120):
    """(ok, backend, why)"""
    pr = Prover(hyps, budget={"n": 600, "t": time.time() + seconds})
    g = substb(goal, pr.map)
    # unify inner functionals first
    g2 = g if g is TRUE or g in pr.hyps else merge_inside(pr, g, min(20, seconds / 3))
    if g2 is not g:
        p2 = Prover(hyps, budget={"n": 600, "t": time.time() + max(10, seconds / 3)})
        if p2.prove(g2):
            return True, p2.backend, None
    ok = pr.prove(goal)
    return ok, pr.backend, pr.why
