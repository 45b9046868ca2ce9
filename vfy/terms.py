"""Term layer of the verifier: hash-consed polynomial normal forms over atoms.

Real, integer and complex valued terms are multivariate (Laurent) polynomials with rational
coefficients over *atoms*: variables, applications of (un)interpreted functions, if-then-else
terms, floor terms, inverses and binder terms (sums, transforms, array functionals).  Every term
is hash-consed, so syntactic equality of normal forms is object identity.

Division is the total operation with 1/0 = 0; x*(1/x) is only cancelled for atoms declared
nonzero (or, during a proof, for terms proved nonzero), so equalities proved here never rely on
dividing by a quantity that could vanish.
"""
import math
import itertools
from fractions import Fraction

_SORT = {"i": 0, "r": 1, "c": 2}


class Atom:
    __slots__ = ("id", "kind", "sort", "data", "fv", "hb", "nonzero", "pos", "conds", "__weakref__")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


_atoms = {}
_counter = [0]
EMPTY = frozenset()


def _mk_atom(kind, sort, data, fv, hb, nonzero=False, pos=False):
    key = (kind, sort, data)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        _counter[0] += 1
        a.id = _counter[0]
        a.kind, a.sort, a.data, a.fv, a.hb = kind, sort, data, fv, hb
        a.nonzero, a.pos = nonzero or pos, pos
        a.conds = None
        _atoms[key] = a
    return a


class Poly:
    __slots__ = ("t", "id", "_fv", "_hb", "_sort", "__weakref__")

    # -- construction helpers -------------------------------------------------
    @property
    def fv(self):
        if self._fv is None:
            s = EMPTY
            for m in self.t:
                for a, _ in m:
                    s = s | a.fv
            self._fv = s
        return self._fv

    @property
    def hb(self):
        if self._hb is None:
            h = 0
            for m in self.t:
                for a, _ in m:
                    if a.hb > h:
                        h = a.hb
            self._hb = h
        return self._hb

    @property
    def sort(self):
        if self._sort is None:
            s = 0
            for m, c in self.t.items():
                if s < 1 and c.denominator != 1:
                    s = 1
                for a, e in m:
                    k = _SORT[a.sort]
                    if e < 0 and k == 0:
                        k = 1
                    if k > s:
                        s = k
            self._sort = "irc"[s]
        return self._sort

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        """Fraction value of a constant polynomial or None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        out = {}
        for m in self.t:
            for a, _ in m:
                out[a] = True
        return out

    # -- arithmetic -------------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, Poly):
            o = const(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
        return _poly(t)

    __radd__ = __add__

    def __neg__(self):
        return _poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = const(o)
        return self + (-o)

    def __rsub__(self, o):
        return const(o) + (-self)

    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = const(o)
        if not self.t or not o.t:
            return ZERO
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                c = c1 * c2
                v = t.get(m)
                if v is None:
                    t[m] = c
                else:
                    v = v + c
                    if v:
                        t[m] = v
                    else:
                        del t[m]
        if CABS:
            for m in t:
                if any(e >= 2 and a in CABS for a, e in m):
                    return _abs_squares(t)
        return _poly(t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, Poly):
            o = const(o)
        return self * inv(o)

    def __rtruediv__(self, o):
        return const(o) * inv(self)

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r


CABS = {}            # absolute values of complex terms: {atom: its square}
CABS_SQUARE = []     # z -> Re(z)^2 + Im(z)^2 (set by symnp)


def _abs_squares(t):
    """|z|^2 = Re(z)^2 + Im(z)^2"""
    out = ZERO
    for m, c in t.items():
        rest, f = [], ONE
        for a, e in m:
            if e >= 2 and a in CABS:
                if CABS[a] is None:
                    CABS[a] = CABS_SQUARE[0](a.data[1][0])
                for _ in range(e // 2):
                    f = f * CABS[a]
                e = e % 2
            if e:
                rest.append((a, e))
        out = out + _poly({tuple(rest): c}) * f
    return out


_polys = {}
_pcount = [0]


def _poly(t):
    key = frozenset(t.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t = t
        _pcount[0] += 1
        p.id = _pcount[0]
        p._fv = p._hb = p._sort = None
        _polys[key] = p
    return p


ZERO = _poly({})
ONE = _poly({(): Fraction(1)})


def const(c):
    if isinstance(c, Poly):
        return c
    if isinstance(c, bool):
        c = int(c)
    c = Fraction(c)
    return _poly({(): c}) if c else ZERO


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        s = d.get(a, 0) + e
        if s:
            d[a] = s
        else:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def atom_poly(a, e=1):
    return _poly({((a, e),): Fraction(1)})


_fresh = [0]
_gfresh = [0]


def gfresh(prefix="g", sort="i"):
    """Fresh variable for internal use (opening binders); its counter is never reset"""
    _gfresh[0] += 1
    return var("%s'%d" % (prefix, _gfresh[0]), sort)


def reset_fresh():
    """Restart the numbering of execution variables (every path execution is a fresh universe)"""
    _fresh[0] = 0


def var(name, sort="r", nonzero=False, pos=False):
    a = _mk_atom("var", sort, (name,), None, 0, nonzero, pos)
    if a.fv is None:
        a.fv = frozenset((a,))
    if (nonzero or pos) and not a.nonzero:
        raise ValueError("variable %s redeclared" % name)
    return atom_poly(a)


def fresh(prefix="x", sort="r", **kw):
    _fresh[0] += 1
    tag = "+" if kw.get("pos") else ("*" if kw.get("nonzero") else "")
    return var("%s!%d%s" % (prefix, _fresh[0], tag), sort, **kw)


def is_var(p):
    """The Var atom if p is exactly one variable"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
            return m[0][0]
    return None


def single_atom(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def bvar(k):
    a = _mk_atom("bvar", "i", (k,), None, 0)
    if a.fv is None:
        a.fv = frozenset((a,))
    return atom_poly(a)


def _lead(p):
    m = min(p.t, key=_mkey)
    return m, p.t[m]


def _mkey(m):
    return (-sum(abs(e) for _, e in m), tuple((a.id, e) for a, e in m))


PI = var("pi", "r", pos=True)
INF = var("INF", "r", pos=True)


# -- inverse ---------------------------------------------------------------------
def inv(p):
    if not p.t:
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = const(1 / c)
        for a, e in m:
            if a.nonzero:
                r = r * atom_poly(a, -e)
            elif a.kind == "inv":
                r = r * (a.data[0] ** e)
            elif a.kind == "ite":
                cnd, x, y = a.data
                r = r * (ite(cnd, inv(x), inv(y)) ** e)
            else:
                r = r * (_inv_atom(atom_poly(a)) ** e)
        return r
    # pull out the common monomial in nonzero atoms and the leading coefficient
    mins = None
    for m in p.t:
        d = {a: e for a, e in m if a.nonzero}
        if mins is None:
            mins = d
        else:
            new = {}
            for a in set(mins) | set(d):
                e = min(mins.get(a, 0), d.get(a, 0))
                if e:
                    new[a] = e
            mins = new
    fac = ONE
    for a, e in (mins or {}).items():
        fac = fac * atom_poly(a, e)
    facinv = ONE
    for a, e in (mins or {}).items():
        facinv = facinv * atom_poly(a, -e)
    q = p * facinv
    _, c = _lead(q)
    q = q * const(1 / c)
    if len(q.t) == 1:
        return inv(q) * facinv * const(1 / c)
    return _inv_atom(q) * facinv * const(1 / c)


def _inv_atom(q):
    sort = q.sort
    a = _mk_atom("inv", "c" if sort == "c" else "r", (q,), q.fv, q.hb)
    return atom_poly(a)


# -- booleans ---------------------------------------------------------------------
class B:
    __slots__ = ("id", "kind", "data", "fv", "hb", "__weakref__")

    def __repr__(self):
        return showb(self)


_bools = {}


def _mkb(kind, data, fv, hb):
    key = (kind, data)
    b = _bools.get(key)
    if b is None:
        b = B()
        _counter[0] += 1
        b.id = _counter[0]
        b.kind, b.data, b.fv, b.hb = kind, data, fv, hb
        _bools[key] = b
    return b


TRUE = _mkb("true", (), EMPTY, 0)
FALSE = _mkb("false", (), EMPTY, 0)


def blit(x):
    return TRUE if x else FALSE


def _scale_pos(p):
    """Divide by positive factors: |leading coef| and common atoms known positive"""
    mins = None
    for m in p.t:
        d = {a: e for a, e in m if a.pos}
        if mins is None:
            mins = d
        else:
            new = {}
            for a in set(mins) | set(d):
                e = min(mins.get(a, 0), d.get(a, 0))
                if e:
                    new[a] = e
            mins = new
    if mins:
        f = ONE
        for a, e in mins.items():
            f = f * atom_poly(a, -e)
        p = p * f
    _, c = _lead(p)
    if abs(c) != 1:
        p = p * const(1 / abs(c))
    return p


def _integral(p):
    """p = s*(q + c), s > 0, q without constant part, integer valued with coprime coefficients: (q, c); else None"""
    den, num = 1, 0
    c0 = Fraction(0)
    for m, c in p.t.items():
        if not m:
            c0 = c
            continue
        if not isinstance(c, Fraction) or any(a.sort != "i" or e < 0 for a, e in m):
            return None
        den = den * c.denominator // math.gcd(den, c.denominator)
    if not isinstance(c0, Fraction):
        return None
    for m, c in p.t.items():
        if m:
            num = math.gcd(num, int(c * den))
    if not num:
        return None
    s = Fraction(num, den)
    return (p - const(c0)) * const(1 / s), c0 / s


def le0(p):
    c = p.const()
    if c is not None:
        return blit(c <= 0)
    if p.sort == "c":
        raise Unsupported("ordering of complex terms")
    p = _scale_pos(p)
    c = p.const()
    if c is not None:
        return blit(c <= 0)
    if p.sort != "c":
        z = _integral(p)
        if z is not None:
            p = z[0] + const(math.ceil(z[1]))
    return _mkb("le", (p,), p.fv, p.hb)


def lt0(p):
    c = p.const()
    if c is not None:
        return blit(c < 0)
    if p.sort == "c":
        raise Unsupported("ordering of complex terms")
    p2 = _scale_pos(p)
    c = p2.const()
    if c is not None:
        return blit(c < 0)
    z = _integral(p2)
    if z is not None:
        return le0(z[0] + const(math.floor(z[1]) + 1))
    return _mkb("lt", (p2,), p2.fv, p2.hb)


def le(a, b):
    return le0(const(a) - const(b))


def lt(a, b):
    return lt0(const(a) - const(b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return eq0(const(a) - const(b))


def eq0(p):
    c = p.const()
    if c is not None:
        return blit(c == 0)
    # strip nonzero common factors
    mins = None
    for m in p.t:
        d = {a: e for a, e in m if a.nonzero}
        if mins is None:
            mins = d
        else:
            new = {}
            for a in set(mins) | set(d):
                e = min(mins.get(a, 0), d.get(a, 0))
                if e:
                    new[a] = e
            mins = new
    if mins:
        f = ONE
        for a, e in mins.items():
            f = f * atom_poly(a, -e)
        p = p * f
        if p.const() is not None:
            return FALSE
    z = _integral(p)
    if z is not None and z[1].denominator != 1:
        return FALSE
    _, c = _lead(p)
    p = p * const(1 / c)
    return _mkb("eq", (p,), p.fv, p.hb)


def ne(a, b):
    return bnot(eq(a, b))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == "not":
        return b.data[0]
    if b.kind == "le":
        return lt0(-b.data[0])
    if b.kind == "lt":
        return le0(-b.data[0])
    if b.kind == "and":
        return bor(*[bnot(x) for x in b.data])
    if b.kind == "or":
        return band(*[bnot(x) for x in b.data])
    return _mkb("not", (b,), b.fv, b.hb)


def band(*bs):
    out = {}
    for b in bs:
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        for x in (b.data if b.kind == "and" else (b,)):
            out[x] = True
    for x in out:
        if bnot1(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    d = tuple(sorted(out, key=lambda x: x.id))
    fv = EMPTY
    for x in d:
        fv = fv | x.fv
    return _mkb("and", d, fv, max(x.hb for x in d))


def bnot1(x):
    if x.kind in ("and", "or"):
        return None
    return bnot(x)


def bor(*bs):
    out = {}
    for b in bs:
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        for x in (b.data if b.kind == "or" else (b,)):
            out[x] = True
    for x in out:
        if bnot1(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    d = tuple(sorted(out, key=lambda x: x.id))
    fv = EMPTY
    for x in d:
        fv = fv | x.fv
    return _mkb("or", d, fv, max(x.hb for x in d))


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    return band(implies(a, b), implies(b, a))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def pred(name, args, bodies=()):
    args = tuple(args)
    fv = EMPTY
    hb = 0
    for p in args:
        fv |= p.fv
        hb = max(hb, p.hb)
    return _mkb("pred", (name, args), fv, hb)


def forall(binders, body):
    """binders: list of (fresh var Poly, size Poly): 0 <= v < size"""
    if body is TRUE:
        return TRUE
    if not binders:
        return body
    if not any(is_var(v) in body.fv for v, n in binders):
        return bor(*[le(n, ZERO) for v, n in binders], body)
    h = body.hb
    mp = {}
    bs = []
    for k, (v, n) in enumerate(binders):
        bv = bvar(h + 1 + k)
        mp[is_var(v)] = bv
        bs.append((single_atom(bv), n))
        h2 = h + 1 + k
    body = substb(body, mp)
    fv = body.fv
    for bv, n in bs:
        fv = (fv - {bv}) | n.fv
    return _mkb("forall", (tuple(bs), body), fv, h2)


# -- if-then-else -------------------------------------------------------------------
def ite(c, a, b):
    a, b = const(a), const(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.kind == "not":
        c, a, b = c.data[0], b, a
    a = assume_p(a, c, True)
    b = assume_p(b, c, False)
    if a is b:
        return a
    # equality conditions on integers: substitute in the then-branch
    s = "irc"[max(_SORT[a.sort], _SORT[b.sort])]
    at = _mk_atom("ite", s, (c, a, b), c.fv | a.fv | b.fv, max(c.hb, a.hb, b.hb))
    return atom_poly(at)


def _conds_of(p):
    """set of B conditions occurring in (unbound) ite atoms of p"""
    out = set()
    for m in p.t:
        for a, _ in m:
            out |= atom_conds(a)
    return out


def atom_conds(a):
    if a.conds is None:
        s = set()
        if a.kind == "ite":
            s.add(a.data[0])
            s |= bconds(a.data[0])
            s |= _conds_of(a.data[1]) | _conds_of(a.data[2])
        elif a.kind in ("floor", "inv"):
            s |= _conds_of(a.data[0])
        elif a.kind == "app":
            for x in a.data[1]:
                s |= _conds_of(x)
        elif a.kind == "fn":
            for x in a.data[1]:
                s |= _conds_of(x)
            for bs, body in a.data[2]:
                bound = {v for v, _ in bs}
                s |= {c for c in _conds_of(body) if not (c.fv & bound)}
        a.conds = frozenset(s)
    return a.conds


def bconds(b):
    if b.kind in ("le", "lt", "eq"):
        return _conds_of(b.data[0])
    if b.kind in ("and", "or", "not"):
        s = set()
        for x in b.data:
            s |= bconds(x)
        return s
    if b.kind == "pred":
        s = set()
        for x in b.data[1]:
            s |= _conds_of(x)
        return s
    return set()


def assume_p(p, c, val):
    """Simplify p knowing that condition c has truth value val (syntactic, ite atoms only)"""
    conds = _conds_of(p)
    hit = [x for x in conds if x is c or (x.kind in ("and", "or", "not") and _mentions(x, c))
           or (c.kind == "and" and val and (x in c.data)) or (c.kind == "or" and not val and x in c.data)
           or bnot1(x) is c]
    if not hit:
        return p
    table = {}
    for x in hit:
        r = assume_b(x, c, val)
        table[x] = r
    return map_conds(p, table)


def _mentions(x, c):
    if x is c:
        return True
    if x.kind in ("and", "or", "not"):
        return any(_mentions(y, c) for y in x.data)
    return bnot1(x) is c


def assume_b(x, c, val):
    if x is c:
        return blit(val)
    n = bnot1(x)
    if n is c and n is not None:
        return blit(not val)
    if c.kind == "and" and val and x in c.data:
        return TRUE
    if c.kind == "or" and not val and x in c.data:
        return FALSE
    if x.kind == "not":
        return bnot(assume_b(x.data[0], c, val))
    if x.kind == "and":
        return band(*[assume_b(y, c, val) for y in x.data])
    if x.kind == "or":
        return bor(*[assume_b(y, c, val) for y in x.data])
    return x


def map_conds(p, table, memo=None):
    """Rebuild p with ite conditions replaced following table"""
    if memo is None:
        memo = {}

    def goB(b):
        if b in table:
            return table[b]
        if b.kind in ("le", "lt", "eq"):
            q = goP(b.data[0])
            return b if q is b.data[0] else {"le": le0, "lt": lt0, "eq": eq0}[b.kind](q)
        if b.kind == "not":
            return bnot(goB(b.data[0]))
        if b.kind == "and":
            return band(*[goB(x) for x in b.data])
        if b.kind == "or":
            return bor(*[goB(x) for x in b.data])
        if b.kind == "pred":
            return pred(b.data[0], [goP(x) for x in b.data[1]])
        return b

    def goP(q):
        if not (_conds_of(q)):
            return q
        r = memo.get(q)
        if r is not None:
            return r
        r = ZERO
        for m, c in q.t.items():
            f = const(c)
            for a, e in m:
                f = f * _powp(goA(a), e)
            r = r + f
        memo[q] = r
        return r

    def goA(a):
        if not atom_conds(a):
            return atom_poly(a)
        if a.kind == "ite":
            c = goB(a.data[0])
            if c is TRUE:
                return goP(a.data[1])
            if c is FALSE:
                return goP(a.data[2])
            return ite(c, goP(a.data[1]), goP(a.data[2]))
        if a.kind == "floor":
            return floor(goP(a.data[0]))
        if a.kind == "inv":
            return inv(goP(a.data[0]))
        if a.kind == "app":
            return app(a.data[0], [goP(x) for x in a.data[1]], a.sort)
        if a.kind == "fn":
            return rebuild_fn(a, goP)
        return atom_poly(a)

    return goP(p)


def mapb_conds(b, table):
    if b in table:
        return table[b]
    if b.kind in ("le", "lt", "eq"):
        q = map_conds(b.data[0], table)
        return b if q is b.data[0] else {"le": le0, "lt": lt0, "eq": eq0}[b.kind](q)
    if b.kind == "not":
        return bnot(mapb_conds(b.data[0], table))
    if b.kind == "and":
        return band(*[mapb_conds(x, table) for x in b.data])
    if b.kind == "or":
        return bor(*[mapb_conds(x, table) for x in b.data])
    if b.kind == "pred":
        return pred(b.data[0], [map_conds(x, table) for x in b.data[1]])
    return b


def _powp(p, e):
    return p ** e if e >= 0 else inv(p) ** (-e)


# -- functions ------------------------------------------------------------------------
class Unsupported(BaseException):
    """The verifier cannot handle a construct: the unit is undecided (never a pass)."""


_trig_sin = {Fraction(0): 0, Fraction(1, 2): 1, Fraction(1): 0, Fraction(3, 2): -1,
             Fraction(1, 6): Fraction(1, 2), Fraction(5, 6): Fraction(1, 2),
             Fraction(7, 6): Fraction(-1, 2), Fraction(11, 6): Fraction(-1, 2)}
_PIM = next(iter(PI.t))


def _trig(name, p):
    # split off c*pi
    c = p.t.get(_PIM, Fraction(0))
    rest = p - const(c) * PI
    # reduce c modulo 2 pi, fold quarter turns into the function
    if name == "cos":
        c = c + Fraction(1, 2)      # cos x = sin(x + pi/2)
    c = c % 2
    if not rest.t:
        if c in _trig_sin:
            return const(_trig_sin[c])
    q = int((c * 2).__floor__())
    # sin(rest + f*pi + q*pi/2)
    f = c - Fraction(q, 2)
    arg = rest + const(f) * PI
    # q=0: sin(arg)  1: cos(arg) 2: -sin 3: -cos
    sgn = 1 if q < 2 else -1
    fn = "sin" if q % 2 == 0 else "cos"
    if arg.t:
        _, lc = _lead(arg)
        if lc < 0:
            if fn == "sin":
                sgn = -sgn
            arg = -arg
            # re-normalise offset after the sign flip
            c2 = arg.t.get(_PIM, Fraction(0))
            if c2 < 0 and (arg - const(c2) * PI).t:
                r = _trig(fn, arg)
                return r * sgn
    a = _mk_atom("app", "r", (fn, (arg,)), arg.fv, arg.hb)
    return atom_poly(a) * sgn


def app(name, args, sort="r", nonzero=False, pos=False):
    args = tuple(const(x) for x in args)
    if name in ("sin", "cos"):
        # push through ite
        a = single_atom(args[0])
        if a is not None and a.kind == "ite":
            return ite(a.data[0], app(name, [a.data[1]]), app(name, [a.data[2]]))
        return _trig(name, args[0])
    if name == "sqrt":
        c = args[0].const()
        if c is not None and c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    if name == "arcsin":
        c = args[0].const()
        if c is not None and c in (-1, 0, 1):
            return PI * Fraction(c, 2)
    if name == "exp":
        if not args[0].t:
            return ONE
        pos = True
    if name == "pow":
        c = args[1].const()
        if c is not None and c.denominator == 1 and 0 <= c <= 8:
            return args[0] ** int(c)
        if args[0] is ONE:
            return ONE
    if name == "abs" and args[0].sort == "c" and len(args[0].t) == 1:
        # |c * x| = |c| |x|
        (m, c), = args[0].t.items()
        if abs(c) != 1 or c < 0:
            return app("abs", [_poly({m: Fraction(1)})]) * abs(c)
    fv = EMPTY
    hb = 0
    for p in args:
        fv |= p.fv
        hb = max(hb, p.hb)
    a = _mk_atom("app", sort, (name, args), fv, hb, nonzero, pos)
    if name == "abs" and args[0].sort == "c":
        CABS.setdefault(a, None)
    return atom_poly(a)


def floor(p):
    if p.sort == "i":
        return p
    if p.sort == "c":
        raise Unsupported("floor of complex")
    ipart = ZERO
    rest = {}
    for m, c in p.t.items():
        if all(a.sort == "i" and e > 0 for a, e in m):
            fl = c.__floor__()
            if m == ():
                ipart = ipart + const(fl)
                if c != fl:
                    rest[m] = c - fl
            elif c.denominator == 1:
                ipart = ipart + _poly({m: c})
            else:
                rest[m] = c
        else:
            rest[m] = c
    if not rest:
        return ipart
    r = _poly(rest)
    if r.const() is not None:
        return ipart + const(r.const().__floor__())
    a = _mk_atom("floor", "i", (r,), r.fv, r.hb)
    return ipart + atom_poly(a)


def absr(p):
    if p.sort == "c":
        return app("abs", [p])
    c = p.const()
    if c is not None:
        return const(abs(c))
    return ite(ge(p, ZERO), p, -p)


def pmax(a, b):
    return ite(ge(a, b), a, b)


def pmin(a, b):
    return ite(le(a, b), a, b)


# -- binder terms ------------------------------------------------------------------------
def fn(name, sargs, bodies, sort="r"):
    """Array functional: name(sargs; body_1, ..., body_k)

    bodies: list of (binders, body) with binders a list of (fresh var Poly, size Poly).
    """
    sargs = tuple(const(x) for x in sargs)
    nb = []
    fv = EMPTY
    hb = 0
    for p in sargs:
        fv |= p.fv
        hb = max(hb, p.hb)
    for binders, body in bodies:
        isb = isinstance(body, B)
        if not isb:
            body = const(body)
        h = body.hb
        mp = {}
        bs = []
        for k, (v, n) in enumerate(binders):
            bv = bvar(h + 1 + k)
            va = is_var(v)
            if va is None:
                va = single_atom(v)
            mp[va] = bv
            bs.append((single_atom(bv), const(n)))
        body2 = (substb if isb else subst)(body, mp)
        bound = frozenset(b for b, _ in bs)
        fv |= (body2.fv - bound)
        for _, n in bs:
            fv |= n.fv
            hb = max(hb, n.hb)
        hb = max(hb, h + len(bs))
        nb.append((tuple(bs), body2))
    a = _mk_atom("fn", sort, (name, sargs, tuple(nb)), fv, hb)
    return atom_poly(a)


def open_body(a, k, prefix="k"):
    """open the k-th body of fn atom a with fresh variables: (vars, sizes, body)"""
    bs, body = a.data[2][k]
    vs = [gfresh(prefix, "i") for _ in bs]
    mp = {b: v for (b, _), v in zip(bs, vs)}
    return vs, [n for _, n in bs], (substb if isinstance(body, B) else subst)(body, mp)


LINEAR = {}        # name -> post-hook(name, sargs, binders, residual poly) or None


def register_linear(name, hook=None):
    LINEAR[name] = hook


def lin(name, sargs, binders, body, sort="r"):
    """Linear array functional, decomposed over the monomials of the body"""
    body = const(body)
    vars_ = {is_var(v) for v, _ in binders}
    r = ZERO
    hook = LINEAR.get(name)
    groups = {}
    for m, c in body.t.items():
        inner = tuple((a, e) for a, e in m if a.fv & vars_)
        outer = tuple((a, e) for a, e in m if not (a.fv & vars_))
        groups.setdefault(inner, []).append((outer, c))
    for inner, outs in groups.items():
        coef = _poly({o: c for o, c in outs})
        res = _poly({inner: Fraction(1)})
        x = hook(sargs, binders, res, sort) if hook else None
        if x is None:
            s = sort
            if res.sort == "c":
                s = "c" if sort != "R" else "r"
            x = fn(name, sargs, [(binders, res)], s if s != "R" else "r")
        r = r + coef * x
    return r


def _sum_hook(sargs, binders, res, sort):
    if res is ONE:
        r = ONE
        for _, n in binders:
            r = r * n
        return r
    if len(binders) == 1:
        n = binders[0][1].const()
        if n is not None and n <= 6:
            r = ZERO
            for k in range(int(n)):
                r = r + subst(res, {is_var(binders[0][0]): const(k)})
            return r
    (m, _), = res.t.items()
    sums = [(a, e) for a, e in m if a.kind == "fn" and a.data[0] == "SUM"]
    if len(sums) == 1 and sums[0][1] == 1:
        # a sum of (weighted) sums is one sum (finite sums: the order does not matter)
        a = sums[0][0]
        vars_ = {is_var(v) for v, _ in binders}
        if not any(n.fv & vars_ for _, n in a.data[2][0][0]):
            vs, ns, b = open_body(a, 0)
            w = _poly({tuple((x, e) for x, e in m if x is not a): Fraction(1)})
            return psum(list(binders) + list(zip(vs, ns)), w * b)
    if len(binders) in (2, 3):
        s = sort
        if res.sort == "c":
            s = "c" if sort != "R" else "r"
        return min((fn("SUM", sargs, [(list(bs), res)], s if s != "R" else "r") for bs in itertools.permutations(binders)),
                   key=lambda p: single_atom(p).id)
    return None


register_linear("SUM", _sum_hook)


def psum(binders, body):
    s = "c" if body.sort == "c" else ("i" if body.sort == "i" else "r")
    # constant sized dimensions are expanded
    for k, (v, n) in enumerate(binders):
        c = n.const()
        if c is not None and c <= 6:
            rest = binders[:k] + binders[k + 1:]
            r = ZERO
            for q in range(int(c)):
                b = subst(body, {is_var(v): const(q)})
                r = r + (psum(rest, b) if rest else b)
            return r
    # binders a summand does not depend on: multiply by their (nonnegative) range
    free = [(v, n) for v, n in binders if _nonneg(n)]
    if free:
        fvs = body.fv
        keep, groups = {}, {}
        for m, c in body.t.items():
            mfv = set()
            for a, e in m:
                mfv |= a.fv
            un = tuple(k for k, (v, n) in enumerate(binders) if _nonneg(n) and is_var(v) not in mfv)
            groups.setdefault(un, {})[m] = c
        if any(groups) and (len(groups) > 1 or next(iter(groups))):
            r = ZERO
            for un, t in groups.items():
                b = _poly(t)
                rest = [x for k, x in enumerate(binders) if k not in un]
                f = ONE
                for k in un:
                    f = f * binders[k][1]
                r = r + f * (lin("SUM", (), rest, b, s) if rest else b)
            return r
    return _sum_out(binders, body, s)


def _swaps(name):
    return name.startswith(("INTERP1D:", "QM:"))


def _sum_out(binders, body, s):
    """sum with conditions the binders do not occur in, and the linear functionals marked by _swaps, moved outside"""
    vars_ = frozenset(is_var(v) for v, _ in binders)
    rest, r = {}, ZERO
    for m, c in body.t.items():
        inner = [(a, e) for a, e in m if a.fv & vars_]
        if len(inner) == 1 and inner[0][1] == 1:
            a = inner[0][0]
            x = None
            if a.kind == "ite" and not (a.data[0].fv & vars_):
                x = ite(a.data[0], psum(binders, a.data[1]), psum(binders, a.data[2]))
            elif a.kind == "fn" and _swaps(a.data[0]) and not any(q.fv & vars_ for q in a.data[1]) and not any(
                    n.fv & vars_ for _, n in a.data[2][0][0]):
                vs, ns, b = open_body(a, 0)
                x = lin(a.data[0], a.data[1], list(zip(vs, ns)), psum(binders, b), "R")
            if x is not None:
                r = r + _poly({tuple((b, e) for b, e in m if b is not a): c}) * x
                continue
        rest[m] = c
    if rest or r is ZERO:
        r = r + lin("SUM", (), binders, _poly(rest), s)
    return r


def _nonneg(n):
    return bool(n.t) and all(c > 0 and all(a.pos and a.sort != "c" and e > 0 for a, e in m) for m, c in n.t.items())


def rebuild_fn(a, f, fb=None):
    """Rebuild an fn atom applying f to scalar args and bodies (bodies keep bound variables)"""
    name, sargs, bodies = a.data
    ns = tuple(f(x) for x in sargs)
    if name in LINEAR and len(bodies) == 1 and not isinstance(bodies[0][1], B):
        bs, body = bodies[0]
        vs = [gfresh("o", "i") for _ in bs]
        b2 = f(body)
        b2 = subst(b2, {b: v for (b, _), v in zip(bs, vs)})
        binders = [(v, f(n)) for v, (_, n) in zip(vs, bs)]
        if name == "SUM":
            return psum(binders, b2)
        return lin(name, ns, binders, b2, a.sort if a.sort != "c" else "c")
    nb = []
    for bs, body in bodies:
        vs = [gfresh("o", "i") for _ in bs]
        if isinstance(body, B):
            b2 = (fb or (lambda z: z))(body)
            b2 = substb(b2, {b: v for (b, _), v in zip(bs, vs)})
        else:
            b2 = f(body)
            b2 = subst(b2, {b: v for (b, _), v in zip(bs, vs)})
        nb.append(([(v, f(n)) for v, (_, n) in zip(vs, bs)], b2))
    h = NONLIN_HOOK.get(name)
    if h is not None:
        return h(ns, nb, a.sort)
    return fn(name, ns, nb, a.sort)


NONLIN_HOOK = {}

# -- substitution ---------------------------------------------------------------------------


def subst(p, mp, memo=None):
    if not mp or not p.t:
        return p
    keys = frozenset(mp)
    if not (p.fv & keys):
        return p
    if memo is None:
        memo = {}
    return _subst(p, mp, keys, memo)


def _subst(p, mp, keys, memo):
    if not (p.fv & keys):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    r = ZERO
    acc = {}
    for m, c in p.t.items():
        if not any(a.fv & keys for a, _ in m):
            acc[m] = acc.get(m, 0) + c
            continue
        f = const(c)
        for a, e in m:
            if a.fv & keys:
                f = f * _powp(_subst_a(a, mp, keys, memo), e)
            else:
                f = f * atom_poly(a, e)
        r = r + f
    if acc:
        r = r + _poly(acc)
    memo[p] = r
    return r


def _subst_a(a, mp, keys, memo):
    if a in mp:
        return mp[a]
    k = a.kind
    if k == "ite":
        c = _substb(a.data[0], mp, keys, memo)
        if c is TRUE:
            return _subst(a.data[1], mp, keys, memo)
        if c is FALSE:
            return _subst(a.data[2], mp, keys, memo)
        return ite(c, _subst(a.data[1], mp, keys, memo), _subst(a.data[2], mp, keys, memo))
    if k == "app":
        return app(a.data[0], [_subst(x, mp, keys, memo) for x in a.data[1]], a.sort, a.nonzero, a.pos)
    if k == "floor":
        return floor(_subst(a.data[0], mp, keys, memo))
    if k == "inv":
        return inv(_subst(a.data[0], mp, keys, memo))
    if k == "fn":
        return rebuild_fn(a, lambda q: _subst(q, mp, keys, memo), lambda q: _substb(q, mp, keys, memo))
    return atom_poly(a)


def substb(b, mp):
    if not mp:
        return b
    keys = frozenset(mp)
    if not (b.fv & keys):
        return b
    return _substb(b, mp, keys, {})


def _substb(b, mp, keys, memo):
    if not (b.fv & keys):
        return b
    if b in memo:
        return memo[b]
    k = b.kind
    if k == "le":
        r = le0(_subst(b.data[0], mp, keys, memo))
    elif k == "lt":
        r = lt0(_subst(b.data[0], mp, keys, memo))
    elif k == "eq":
        r = eq0(_subst(b.data[0], mp, keys, memo))
    elif k == "not":
        r = bnot(_substb(b.data[0], mp, keys, memo))
    elif k == "and":
        r = band(*[_substb(x, mp, keys, memo) for x in b.data])
    elif k == "or":
        r = bor(*[_substb(x, mp, keys, memo) for x in b.data])
    elif k == "pred":
        r = pred(b.data[0], [_subst(x, mp, keys, memo) for x in b.data[1]])
    elif k == "forall":
        bs, body = b.data
        vs = [gfresh("q", "i") for _ in bs]
        b2 = _substb(body, mp, keys, memo)
        b2 = substb(b2, {v: w for (v, _), w in zip(bs, vs)})
        r = forall([(w, _subst(n, mp, keys, memo)) for w, (_, n) in zip(vs, bs)], b2)
    else:
        r = b
    memo[b] = r
    return r


def replace_atoms(p, table, memo=None):
    """Replace whole atoms (of any kind) by polynomials, also inside other atoms"""
    if memo is None:
        memo = {}

    def goP(q):
        r = memo.get(q)
        if r is not None:
            return r
        r = ZERO
        for m, c in q.t.items():
            f = const(c)
            for a, e in m:
                f = f * _powp(goA(a), e)
            r = r + f
        memo[q] = r
        return r

    def goA(a):
        if a in table:
            return table[a]
        k = a.kind
        if k == "ite":
            return ite(goB(a.data[0]), goP(a.data[1]), goP(a.data[2]))
        if k == "app":
            return app(a.data[0], [goP(x) for x in a.data[1]], a.sort, a.nonzero, a.pos)
        if k == "floor":
            return floor(goP(a.data[0]))
        if k == "inv":
            return inv(goP(a.data[0]))
        if k == "fn":
            return rebuild_fn(a, goP, goB)
        return atom_poly(a)

    def goB(b):
        k = b.kind
        if k in ("le", "lt", "eq"):
            q = goP(b.data[0])
            return b if q is b.data[0] else {"le": le0, "lt": lt0, "eq": eq0}[k](q)
        if k == "not":
            return bnot(goB(b.data[0]))
        if k == "and":
            return band(*[goB(x) for x in b.data])
        if k == "or":
            return bor(*[goB(x) for x in b.data])
        if k == "pred":
            return pred(b.data[0], [goP(x) for x in b.data[1]])
        if k == "forall":
            bs, body = b.data
            vs = [gfresh("o", "i") for _ in bs]
            return forall([(v, goP(n)) for v, (_, n) in zip(vs, bs)], substb(goB(body), {x: v for (x, _), v in zip(bs, vs)}))
        return b

    return goP(p) if isinstance(p, Poly) else goB(p)


# -- printing ----------------------------------------------------------------------------------
def show_atom(a):
    k = a.kind
    if k == "var":
        return a.data[0]
    if k == "bvar":
        return "%%%d" % a.data[0]
    if k == "app":
        return "%s(%s)" % (a.data[0], ", ".join(show(x) for x in a.data[1]))
    if k == "ite":
        return "(%s ? %s : %s)" % (showb(a.data[0]), show(a.data[1]), show(a.data[2]))
    if k == "floor":
        return "floor(%s)" % show(a.data[0])
    if k == "inv":
        return "1/(%s)" % show(a.data[0])
    if k == "fn":
        return "%s[%s](%s)" % (a.data[0], ", ".join(show(x) for x in a.data[1]),
                               "; ".join("λ%s. %s" % (",".join("%s<%s" % (show_atom(v), show(n)) for v, n in bs),
                                                      show(b) if isinstance(b, Poly) else showb(b))
                                         for bs, b in a.data[2]))
    return "?"


def show(p):
    if not p.t:
        return "0"
    out = []
    for m in sorted(p.t, key=_mkey):
        c = p.t[m]
        s = "*".join(show_atom(a) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append("%s*%s" % (c, s))
    return " + ".join(out)


def showb(b):
    k = b.kind
    if k in ("true", "false"):
        return k
    if k == "le":
        return "(%s <= 0)" % show(b.data[0])
    if k == "lt":
        return "(%s < 0)" % show(b.data[0])
    if k == "eq":
        return "(%s == 0)" % show(b.data[0])
    if k == "not":
        return "!%s" % showb(b.data[0])
    if k == "and":
        return "(%s)" % " & ".join(showb(x) for x in b.data)
    if k == "or":
        return "(%s)" % " | ".join(showb(x) for x in b.data)
    if k == "pred":
        return "%s(%s)" % (b.data[0], ", ".join(show(x) for x in b.data[1]))
    if k == "forall":
        return "forall %s. %s" % (",".join("%s<%s" % (show_atom(v), show(n)) for v, n in b.data[0]), showb(b.data[1]))
    return "?"
