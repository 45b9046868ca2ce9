"""Texts. Their contract here: Python's format() and str() of a number show that number (with the digits asked for)."""
import re

from .common import *
from .c15 import Family

F = "formatting."
DIGITS = "0123456789+-"
SUB, SUP = "₀₁₂₃₄₅₆₇₈₉₊₋", "⁰¹²³⁴⁵⁶⁷⁸⁹⁺⁻"


def pieces(text):
    """a text as a list of literal texts, (number, format), (number, "translated", table) and (condition, a, b)"""
    keys = sorted(list(E.FORMATTED) + list(E.TRANSLATED), key=len, reverse=True)
    rx = "|".join([re.escape(k) for k in keys] + ["[\U000F0000-\U000FFFFD]"])
    out = []
    for part in re.split("(%s)" % rx, text):
        if part in E.TRANSLATED:
            out.append((E.TRANSLATED[part][0], "translated", E.TRANSLATED[part][1]))
        elif part in E.FORMATTED:
            out.append((E.FORMATTED[part], part[:-1].rpartition("|")[2] if "|" in part else ""))
        elif part in E.Choice.known:
            out.append(E.Choice.known[part])
        elif "⟦" in part:
            raise Unsupported("text %r" % part)
        elif part:
            out.append(part)
    return out


def shows(name, text, *want):
    """the text consists of the given literal texts and numbers: (number, format) or (number, "translated", characters)"""
    c = ctx()
    if not isinstance(text, str):
        return c.violated(name, "not a text: %r" % (text,))
    got, w = pieces(text), []
    for x in want:
        # neighbouring literal texts make one
        if isinstance(x, str) and w and isinstance(w[-1], str):
            w[-1] += x
        elif x != "":
            w.append(x)
    if len(got) != len(w) or any(isinstance(a, str) != isinstance(b, str) for a, b in zip(got, w)):
        return c.violated(name, "%r does not have the form %r" % (text, want))
    for a, b in zip(got, w):
        if isinstance(a, str):
            if a != b:
                return c.violated(name, "%r instead of %r" % (a, b))
        elif b[1] == "translated":
            if a[1] != "translated":
                return c.violated(name, "%r is not translated" % (a,))
            if [a[2].get(ord(d)) for d in DIGITS] != [x for x in map(lambda s: a[2].get(ord(s)), DIGITS)]:
                raise Unsupported("translation table")
            table = {chr(k): v if isinstance(v, str) else chr(v) for k, v in a[2].items()}
            if any(table.get(d) != s for d, s in zip(DIGITS, b[2])):
                return c.violated(name, "translated to %r" % (table,))
            prove_eq(name + ": number shown", a[0], b[0])
        else:
            if a[1] == "translated" or a[1] != b[1]:
                if a[1].lstrip(">") != b[1]:
                    return c.violated(name, "%r instead of format %r" % (a[1], b[1]))
            prove_eq(name + ": number shown", a[0], b[0])
    prove(name, TRUE)


class Moment(Time):
    """a datetime that knows its text in ISO format"""

    def isoformat(self, *a, **k):
        if a or k:
            raise Unsupported("isoformat options")
        return "ISO TEXT"
    __repr__ = __str__ = lambda self: "OTHER TEXT"
    __format__ = lambda self, s: "OTHER TEXT"
    strftime = ctime = lambda self, *a: "OTHER TEXT"


@unit("C23", "sub and sup", under=[F + "sub", F + "sup"])
def subsup(c):
    pkg = package()
    n = T.var("n", "i", nonzero=False)
    shows("sub", pkg.formatting.sub(Num(n)), (n, "translated", SUB))
    shows("sup", pkg.formatting.sup(Num(n)), (n, "translated", SUP))


@unit("C23", "times", under=[F + "format_time"])
def times(c):
    pkg = package()
    f = pkg.formatting.format_time
    for sort in "ri":
        t = T.var("t_" + sort, sort, nonzero=False)
        text = f(Num(t))
        n = "number (%s)" % sort
        if c.decide(le(t, const(120))):
            shows(n + ": seconds", text, "t = ", (t, ".1f"), " s")
        elif c.decide(le(t, const(120 * 60))):
            shows(n + ": minutes", text, "t = ", (t / 60, ".1f"), " min")
        elif c.decide(le(t, const(240 * 3600))):
            shows(n + ": hours", text, "t = ", (t / 3600, ".1f"), " h")
        else:
            shows(n + ": days", text, "t = ", (t / 86400, ".1f"), " d")
    shows("datetime", f(Moment(T.var("s", "r"))), "ISO TEXT")


def grid_text(g):
    return ("<barotropic.Grid> with\n    (nlat, nlon) = (", (g.nlat, ""), ", ", (g.nlon, ""), ")\n    resolution   = ",
            (g.res, ""), "°\n    rsphere      = ", (g.r, ""), " m\n    omega        = ", (g.omega, ""), " s⁻¹\n    ntrunc       = ",
            (g.nt, ""), "\n    legfunc      = ")


@unit("C23", "grids", under=[F + "grid_repr", "grid.Grid.__repr__"])
def grid_repr(c):
    pkg = package()
    for n, g in grids(pkg):
        for legfunc in ("stored", "computed"):
            # (another Legendre mode is given to the transforms as is: C01)
            g.grid._spharm.legfunc = legfunc
            text = repr(g.grid)
            shows("%sgrid, %s" % (n, legfunc), text, *grid_text(g), legfunc)


@unit("C23", "regions", under=[F + "grid_region_repr", "grid.GridRegion.__repr__", "grid.GridRegion.lat", "grid.GridRegion.lon",
                               "grid.GridRegion.shape"])
def region_repr(c):
    pkg = package()
    replace(pkg, "grid.Grid.__repr__", lambda self: "GRID TEXT" if self is g.grid else "ANOTHER GRID TEXT")
    g = G(pkg)
    E.TEXT_CHOICES = True
    try:
        nj, ni = T.var("nj", "i"), T.var("ni", "i")
        for n, m in ((nj, g.nlat), (ni, g.nlon)):
            c.require(ge(n, ZERO))
            c.require(le(n, m))
        J, I = uarray("J", (nj,), "i"), uarray("I", (ni,), "i")
        for A, n, m in ((J, nj, g.nlat), (I, ni, g.nlon)):
            v = gfresh("q")
            c.require(forall([(v, n)], band(ge(A.get((v,)), ZERO), lt(A.get((v,)), m))))
        r = pkg.grid.GridRegion(g.grid, J, I)
        lat, lon = (lambda k: g.lat(J.get((topoly(k),)))), (lambda k: g.lon(I.get((topoly(k),))))
        text = repr(r)
    finally:
        E.TEXT_CHOICES = False
    lines = text.split("\n")
    if len(lines) != 15:
        return c.violated("lines", "%d lines" % len(lines))
    squeeze = lambda s: re.sub(" +", " ", s)
    if c.decide(eq(nj, ZERO)):
        shows("latitudes (none)", squeeze(lines[0]), "Region none °N (nlat = ", (nj, ""), ")")
    else:
        shows("latitudes", lines[0], "Region ", (lat(nj - 1), "6.2f"), " to ", (lat(0), "6.2f"), " °N (nlat = ", (nj, ""), ")")
    if c.decide(eq(ni, ZERO)):
        shows("longitudes (none)", squeeze(lines[1]), " none °E (nlon = ", (ni, ""), ")")
    else:
        shows("longitudes", lines[1], "       ", (lon(0), "6.2f"), " to ", (lon(ni - 1), "6.2f"), " °E (nlon = ", (ni, ""), ")")
    for k, x in ((2, ""), (12, "    0°E              180°E"), (13, ""), (14, "of GRID TEXT")):
        if lines[k] != x:
            c.violated("line %d" % k, "%r instead of %r" % (lines[k], x))
    right = {0: " 90°N", 4: " EQ", 8: " 90°S"}

    def some(n, f, lo, hi, last):
        """a coordinate in lo <= x < hi (<= hi in the last cell)"""
        v = gfresh("w")
        return bnot(forall([(v, n)], bnot(band(ge(f(v), const(lo)), bor(lt(f(v), const(hi)), band(TRUE if last else FALSE, eq(f(v), const(hi))))))))
    L = [some(nj, lat, 70 - 20 * a, 90 - 20 * a, a == 0) for a in range(9)]
    M = [some(ni, lon, 10 * b, 10 * b + 10, b == 35) for b in range(36)]
    known = {}

    def settled(x, targets):
        """condition x, or the one of the targets proved to be equivalent"""
        for t in targets:
            if x.fv & t.fv and (x, t) not in known:
                known[x, t] = c.entails(iff(x, t))
            if known.get((x, t)):
                return t
        return x
    for a in range(9):
        row = lines[3 + a]
        if row[:4] != "    " or row[40:] != right.get(a, ""):
            return c.violated("map", "row %d is %r" % (a, row))
        for b in range(36):
            x = row[4 + b]
            if x in E.Choice.known:
                cond, s0, s1 = E.Choice.known[x]
                if (s0, s1) == ("·", "X"):
                    cond, s0, s1 = bnot(cond), s1, s0
                if (s0, s1) != ("X", "·"):
                    return c.violated("map", "cells are %r or %r" % (s0, s1))
            elif x in "X·":
                cond = TRUE if x == "X" else FALSE
            else:
                return c.violated("map", "cell is %r" % x)
            prove("map: cell marked exactly if the region has gridpoints there",
                  iff(band(*[settled(x, (L[a], M[b])) for x in (cond.data if cond.kind == "and" else (cond,))]), band(L[a], M[b])))


@unit("C23", "states", under=[F + "state_repr", "state.State.__repr__", "state.StateList.__repr__"])
def state_repr(c):
    pkg = package()
    t = Num(T.var("t", "r", nonzero=False))
    replace(pkg, "formatting.format_time", lambda x: "TIME TEXT" if x is t else "ANOTHER TIME TEXT")
    g = G(pkg)
    s = pkg.state.State(g.grid, t, pv_spectral=g.spec("S"))
    shows("state", repr(s), "<barotropic.State TIME TEXT>")
    fam = Family(pkg)
    s, n = fam.make(c, "s")
    shows("list of states", repr(s), "<StateList with ", (n, ""), " states>")
    shows("empty list of states", repr(pkg.state.StateList([])), "<StateList with 0 states>")


@unit("C23", "models", under=[F + "barotropic_model_repr", "model.BarotropicModel.__repr__"])
def model_repr(c):
    pkg = package()
    k, m = T.var("k", "r", nonzero=False), T.var("m", "i", pos=True)

    class Forcing:
        def __repr__(self):
            return "FORCING TEXT"
        __str__ = lambda self: "OTHER TEXT"
    for rhs, want in ((Forcing(), "FORCING TEXT"), (None, "None")):
        # (the exponent comes from sup, whose contract is above)
        b = pkg.model.BarotropicModel(rhs, diffusion_order=Num(m), diffusion_coeff=Num(k))
        e = (2 * m, "translated", SUP)
        shows("model, %s" % want, repr(b), "<barotropic.BarotropicModel> integrating\n    ∂q/∂t = -∇(u·q) - κ∇", e,
              "q + RHS \n    where κ   = ", (k, ".5e"), " m", e, "s⁻¹\n    and   RHS = ", want)


@unit("C23", "forcings", under=["rhs._RHSSum.__repr__", "rhs._RHSProduct.__repr__", "rhs._RHSSum.__init__", "rhs._RHSProduct.__init__"])
def rhs_repr(c):
    pkg = package()

    class Term(pkg.rhs.RHS):
        def __init__(self, n):
            self.n = n

        def __repr__(self):
            return "TERM " + self.n
        __str__ = lambda self: "OTHER TEXT"
    a, b, d = Term("A"), Term("B"), Term("C")
    shows("sum", repr(a + b), "(TERM A + TERM B)")
    shows("product", repr(a * b), "(TERM A * TERM B)")
    shows("sum of a product", repr(a * b + d), "((TERM A * TERM B) + TERM C)")
    shows("product of sums", repr((a + b) * (b + d)), "((TERM A + TERM B) * (TERM B + TERM C))")
    shows("product with a sum", repr(a * (b + d)), "(TERM A * (TERM B + TERM C))")
    shows("nested sum", repr(a + (b + d)), "(TERM A + (TERM B + TERM C))")
