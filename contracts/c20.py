"""Plots: what is handed to matplotlib. Its contract here: an axes object draws the array it is given at the coordinates it is given, and
a tick set at x with label l shows l at x; every other call has no effect on that."""
import re

from .common import *
from .c15 import look_at, choose
from .c18 import atoms_of

PL = "plot."
HALF = const("1/2")


def mpl():
    p = Pyplot()
    m = Any("matplotlib")
    m.pyplot, m.ticker = p, Any("ticker")
    return p, package(extra={"matplotlib": m, "matplotlib.pyplot": p, "matplotlib.ticker": m.ticker})


def parr(name, a, shape, f):
    prove_array(name, D.N.NP.asarray(a), shape, lambda *i: f(i if len(i) > 1 else i[0]))


class Any:
    """something without effect on what is drawn where"""

    def __init__(self, name):
        self._n = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Any(self._n + "." + k)

    def __call__(self, *a, **k):
        return Any(self._n + "()")


class Axes:
    def __init__(self, name):
        self.name, self.calls, self.ticks, self.labels, self.rolled = name, [], None, None, None

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def method(*a, **kw):
            self.calls.append((k, tuple(x.snapshot() if E._isarr(x) else x for x in a), kw))
            return Any(k)
        return method

    def get_xlim(self):
        return real(self.name + "_xmin"), real(self.name + "_xmax")

    def set_xticks(self, ticks, labels=None, **kw):
        self.ticks, self.labels, self.rolled = D.N.NP.asarray(ticks).snapshot(), None, None
        if labels is not None:
            self.set_xticklabels(labels)

    def get_xticks(self):
        return self.ticks.snapshot()

    def set_xticklabels(self, labels, **kw):
        self.labels, self.rolled = labels, None

    xaxis = yaxis = Any("axis")

    def drawn(self, *kinds):
        return [x for x in self.calls if x[0] in kinds]


class Pyplot:
    def __init__(self):
        self.axes = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("pyplot.%s has no dependency contract" % k)

    def subplots(self, nrows=1, ncols=1, **kw):
        if len(kw.keys() - {"figsize", "gridspec_kw", "sharex", "sharey", "constrained_layout", "layout"}):
            raise Unsupported("subplots(%s)" % ", ".join(kw))
        rows = [[Axes("ax%d%d" % (r + 1, k + 1)) for k in range(ncols)] for r in range(nrows)]
        self.axes.append(rows)
        out = rows
        if ncols == 1:
            out = [r[0] for r in rows]
        elif nrows == 1:
            out = rows[0]
        return Any("figure"), out

    @property
    def rows(self):
        (rows,) = self.axes
        return rows


def label(text):
    """the number named by a tick label"""
    m = re.fullmatch("(⟦.*⟧)°", text) if isinstance(text, str) else None
    if m is None or m.group(1) not in E.FORMATTED:
        m = re.fullmatch("(-?[0-9.]+)°", text) if isinstance(text, str) else None
        if m is None:
            raise Unsupported("tick label %r" % (text,))
        return const(m.group(1))
    if not re.search(r"\|\.[0-9]f⟧$", m.group(1)):
        raise Unsupported("tick label %r" % (text,))
    return E.FORMATTED[m.group(1)]


def lemma(c, name, given, claim, x):
    """a fact about the real number x, used for x from then on"""
    prove(name, bor(bnot(given), claim))
    c.require(bor(bnot(given), claim))


class Rolled:
    """how the columns of a field are to be drawn for a centre longitude: the column K nearest to the centre goes into the middle"""

    def __init__(self, c, g, roll, center, name=""):
        self.g, self.name = g, name
        self.m = floor(g.nlon / 2)
        cols = roll(SymArray((g.nlat, g.nlon), "i", lambda i: i[1]))
        prove_shape(name + "rolled field", cols, (g.nlat, g.nlon))
        self.K = cols.get((ZERO, self.m))
        if center is not None:
            self.nearest(c, center)

    def nearest(self, c, center):
        K, n, g = self.K, self.g.nlon, self.g
        for a in atoms_of(K, "ARGMIN"):
            # the column is the index of a minimum
            if c.entails(eq(K, T.atom_poly(a))):
                K = self.K = T.atom_poly(a)
            break
        prove(self.name + "middle column is a gridpoint", band(ge(K, ZERO), lt(K, n)))
        k = T.var("k", "i")
        look_at(c, k)
        d = lambda i: T.absr(dmod(g.lon(i) - topoly(center) + 180, 360) - 180)
        goal = bor(lt(k, ZERO), ge(k, n), le(d(K), d(k)))
        a = T.single_atom(K)
        if a is not None and a.kind == "fn" and a.data[0] == "ARGMIN" and not c.entails(goal):
            # the code minimises another measure of the distance, which orders all longitudes in the same way
            (v,), _, b = T.open_body(a, 0)
            code = lambda i: subst(b, {T.is_var(v): topoly(i)})
            x, y = T.var("x"), T.var("y")
            inside = lambda x: band(ge(x, ZERO), lt(x, const(360)))
            r = dmod(topoly(center), 360)
            q = floor(topoly(center) / 360)
            one = lambda x: ite(le(T.absr(x - r), const(180)), T.absr(x - r), 360 - T.absr(x - r))
            turn = lambda x: floor((x - topoly(center) + 180) / 360) + q
            lemma(c, self.name + "turns between longitudes", inside(x), bor(*(eq(turn(x), const(m)) for m in (-1, 0, 1))), x)
            closed = lambda x: eq(one(x), d(g.N * x / 180))
            lemma(c, self.name + "distance on the circle", inside(x), closed(x), x)
            same = lambda x, y: bor(bnot(le(code(g.N * x / 180), code(g.N * y / 180))), le(one(x), one(y)))
            prove(self.name + "the measure of distance orders the longitudes", bor(bnot(inside(x)), bnot(inside(y)), same(x, y)))
            X, Y = g.lon(K), g.lon(k)
            c.require(inside(X))
            c.require(bor(lt(k, ZERO), ge(k, n), inside(Y)))
            c.require(bor(bnot(inside(X)), closed(X)))
            c.require(bor(bnot(inside(Y)), closed(Y)))
            c.require(bor(bnot(inside(X)), bnot(inside(Y)), same(X, Y)))
        prove(self.name + "no gridpoint is nearer to the centre longitude", goal)

    def col(self, i):
        """the column drawn in column i"""
        return dmod(topoly(i) - self.m + self.K, self.g.nlon)

    def field(self, name, got, f):
        """got is the rolled f"""
        parr(name, got, (self.g.nlat, self.g.nlon), lambda i: f((i[0], self.col(i[1]))))

    def labels(self, c, name, ax):
        if ax.ticks is None or ax.labels is None:
            return c.violated(name, "no longitude labels")
        E_len = E.v_len(ax.labels)
        prove_eq(name + ": one label per tick", E_len, ax.ticks._shape[0])
        n = ax.ticks._shape[0].const()
        prove_is(name + ": ticks", n is not None and n > 0)
        for t in range(int(n)):
            x = ax.ticks.get((const(t),))
            true = x + self.g.lon(self.K) - self.g.lon(self.m)
            prove_eq(name + ": tick %d names the longitude drawn there" % t, dmod(label(ax.labels[t]) - true, 360), ZERO)


def dmod(a, b):
    return E.pmod(topoly(a), topoly(b))


@unit("C20", "roll_lon", under=[PL + "roll_lon", PL + "configure_lon_x"])
def roll_lon(c):
    p, pkg = mpl()
    g = G(pkg)
    how = choose(c, ["centre", "default", "180"])
    center = real("center")
    args = {"centre": (center,), "default": (), "180": (180,)}[how]
    roll, configure = pkg.plot.roll_lon(g.grid.lon, *args)
    r = Rolled(c, g, roll, topoly(args[0] if args else 180))
    f = g.field("f")
    r.field("field", roll(f), f.get)
    if how != "centre":
        return
    x = uarray("x", (g.nlat, g.nlon), "i")
    r.field("integer field", roll(x), x.get)
    ax = Axes("ax")
    configure(ax)
    r.labels(c, "labels", ax)


@unit("C20", "configure_lon_x", under=[PL + "configure_lon_x"])
def unrolled(c):
    p, pkg = mpl()
    g = G(pkg)
    for off in (None, real("offset")):
        ax = Axes("ax")
        pkg.plot.configure_lon_x(ax, *([] if off is None else [off]))
        for t in range(int(ax.ticks._shape[0].const())):
            prove_eq("offset %s: tick %d" % (off, t),
                     dmod(label(ax.labels[t]) - ax.ticks.get((const(t),)) + (ZERO if off is None else off.p), 360), ZERO)


@unit("C20", "symmetric_levels", under=[PL + "symmetric_levels"])
def levels(c):
    p, pkg = mpl()
    n = T.var("n", "i", pos=True)
    c.require(ge(n, const(2)))
    k = T.var("k", "i")
    c.require(ge(k, ZERO))
    c.require(lt(k, n))
    form = choose(c, ["field", "integers", "profile"])
    if form == "profile":
        s = (T.var("w", "i", pos=True),)
    else:
        s = (T.var("h", "i", pos=True), T.var("w", "i", pos=True))
    for d in s:
        c.require(ge(d, ONE))
    x = uarray("x", s, "i" if form == "integers" else "f", owner="x")
    ext = choose(c, ["data", "given"])
    f = pkg.plot.symmetric_levels
    i = tuple(T.var("p%d" % d, "i") for d in range(len(s)))
    e = None
    if ext == "given":
        e = real("ext")
        c.require(gt(e.p, ZERO))
        a = f(x, Num(n), e)
    else:
        a = f(x, Num(n))
    if a._shape[0].const() == 2 and a.get((ONE,)).const() == 1:
        # zero data
        prove_is("two levels with data only", ext == "data")
        for v, d in zip(i, s):
            c.require(band(ge(v, ZERO), lt(v, d)))
        prove_eq("two levels for zero data only", x.get(i), ZERO)
        parr("[-1, 1]", a, (const(2),), lambda i: i * 2 - 1)
        return
    prove_shape("n levels", a, (n,))
    lv = lambda q: a.get((q,))
    prove_eq("symmetric about zero", lv(k) + lv(n - 1 - k), ZERO)
    prove_eq("equally spaced", lv(k) * (n - 1), lv(ZERO) * (n - 1) + (lv(n - 1) - lv(ZERO)) * k)
    prove("increasing", lt(lv(ZERO), lv(n - 1)))
    if e is not None:
        prove_eq("extent", lv(n - 1), e.p)
    else:
        if c.fork():
            return modulus(c, x, s, lv(ZERO))
        for v, d in zip(i, s):
            c.require(band(ge(v, ZERO), lt(v, d)))
        v = x.get(i)
        # (the highest level, by symmetry)
        prove_eq("highest level", lv(n - 1), -lv(ZERO))
        prove("spans the data, lowest level", le(lv(ZERO), v))
        prove("spans the data, highest level", le(v, -lv(ZERO)))


def modulus(c, x, s, low):
    """the lowest level is minus the largest modulus, attained at some w"""
    w = tuple(T.var("w%d" % d, "i") for d in range(len(s)))
    b = [gfresh("q") for _ in s]
    for q, d in zip(w, s):
        c.require(band(ge(q, ZERO), lt(q, d)))
    c.require(forall(list(zip(b, s)), le(T.absr(x.get(tuple(b))), T.absr(x.get(w)))))
    prove("wide enough", le(low, -T.absr(x.get(w))))
    prove("no wider than the data", ge(low, -T.absr(x.get(w))))


@unit("C20", "symmetric_levels, default number", under=[PL + "symmetric_levels"])
def levels10(c):
    p, pkg = mpl()
    e = real("ext")
    c.require(gt(e.p, ZERO))
    a = pkg.plot.symmetric_levels(uarray("x", (const(3), const(4))), ext=e)
    parr("10 levels", a, (const(10),), lambda i: e.p * (i * 2 - 9) / 9)


@unit("C20", "reduce_vectors", under=[PL + "reduce_vectors"])
def vectors(c):
    p, pkg = mpl()
    h, w, ny = (T.var(x, "i", pos=True) for x in ("h", "w", "ny"))
    for x in (h, w, ny):
        c.require(ge(x, ONE))
    c.require(ge(w, h))
    f = pkg.plot.reduce_vectors
    cols = SymArray((h, w), "i", lambda i: i[1])
    rows = SymArray((h, w), "i", lambda i: i[0])
    u, v = uarray("u", (h, w), owner="u"), uarray("v", (h, w), owner="v")
    C, R, a, b = f(cols, rows, u, v, Num(ny))
    shape = C._shape
    for what, z in (("y", R), ("u", a), ("v", b)):
        prove_shape("shape of " + what, z, shape)
    r, k = T.var("r", "i"), T.var("k", "i")
    for q, d in zip((r, k), shape):
        c.require(band(ge(q, ZERO), lt(q, d)))
    look_at(c, r)
    look_at(c, k)
    at = (r, k)
    Rk, Ck = R.get(at), C.get(at)
    prove("points of the grid", band(ge(Rk, ZERO), lt(Rk, h), ge(Ck, ZERO), lt(Ck, w)))
    prove_eq("u at the point", a.get(at), u.get((Rk, Ck)))
    prove_eq("v at the point", b.get(at), v.get((Rk, Ck)))
    x, y = uarray("x", (h, w)), uarray("y", (h, w))
    X, Y, a2, b2 = f(x, y, u, v, Num(ny))
    prove_eq("x at the point", X.get(at), x.get((Rk, Ck)))
    prove_eq("y at the point", Y.get(at), y.get((Rk, Ck)))
    prove("some vectors", band(ge(shape[0], ONE), ge(shape[1], ONE)))
    # rows and columns in order, equally spaced
    c.require(lt(r + 1, shape[0]))
    c.require(lt(k + 1, shape[1]))
    prove("rows and columns in order", band(gt(R.get((r + 1, k)), Rk), gt(C.get((r, k + 1)), Ck)))
    prove_eq("one row", R.get((r, k + 1)), Rk)
    prove_eq("one column", C.get((r + 1, k)), Ck)
    prove_eq("same spacing", R.get((r + 1, k)) - Rk, C.get((r, k + 1)) - Ck)


class Timed:
    def __init__(self, grid, k):
        self.grid, self.k = grid, k
        self.time = Num(app("TIME", [k]))


@unit("C20", "hovmoellerify", under=[PL + "hovmoellerify"])
def hovmoeller(c):
    p, pkg = mpl()
    g = G(pkg)
    n = T.var("n", "i", pos=True)
    what = choose(c, ["lon", "lat", "other"])
    m = T.var("m", "i", pos=True)
    c.require(ge(m, ONE))
    if what == "lon":
        c.require(eq(m, g.nlon))
        m = g.nlon
    elif what == "lat":
        c.require(eq(m, g.nlat))
        m = g.nlat
    else:
        c.require(bnot(eq(m, g.nlon)))
        c.require(bnot(eq(m, g.nlat)))
    few = choose(c, ["any", "1", "none"])
    F = lambda s: SymArray((m,), "f", lambda i: app("F", [s.k, i[0]]))
    f = pkg.plot.hovmoellerify
    if few == "any":
        c.require(ge(n, ONE))
        states = SymSeq(n, lambda i: Timed(g.grid, i), "list")
    elif few == "1":
        n, states = ONE, [Timed(g.grid, ZERO)]
    else:
        return prove_raises("no states", ValueError, lambda: f([], F))
    if what == "other":
        return rejected("profile that fits neither axis", lambda: f(states, F))
    x, y, z = f(states, F)
    times = lambda i: app("TIME", [i])
    if what == "lon":
        parr("x: longitudes", x, (g.nlon,), g.lon)
        parr("y: times", y, (n,), times)
        parr("field", z, (n, g.nlon), lambda i: app("F", [i[0], i[1]]))
    else:
        parr("x: times", x, (n,), times)
        parr("y: latitudes", y, (g.nlat,), g.lat)
        parr("field", z, (g.nlat, n), lambda i: app("F", [i[1], i[0]]))


# -- presets ----------------------------------------------------------------------------------------------
class Fake:
    """a State by its contract: one value per attribute (what these are is decided in C07, C12, C13, C17 and C18)"""

    def __init__(self, g):
        self.grid, self.time = g.grid, real("time")
        for k in ("pv", "u", "v", "vorticity", "streamfunction", "falwa", "v_envelope_hilbert"):
            setattr(self, k, uarray(k, (g.nlat, g.nlon), owner="State." + k))
        self.avo, self.vo = self.pv, self.vorticity
        for k in ("pv_zonalized", "fawa"):
            setattr(self, k, uarray(k, (g.nlat,), owner="State." + k))
        self.stationary_wavenumber = uarray("ks", (g.nlat,), "c", owner="State.ks")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("State.%s in a preset" % k)


class Panel:
    """expected drawings of a panel"""

    def __init__(self, c, g, r, ax):
        self.c, self.g, self.r, self.ax = c, g, r, ax

    def xy(self, name, x, y, shape, X, Y):
        """coordinates, as vectors or fields"""
        if len(x._shape) == 1:
            parr(name + " x", x, (shape[1],), X)
        else:
            parr(name + " x", x, shape, lambda i: X(i[1]))
        if len(y._shape) == 1:
            parr(name + " y", y, (shape[0],), Y)
        else:
            parr(name + " y", y, shape, lambda i: Y(i[0]))

    def field(self, kind, what, f, optional=False):
        """f is drawn as contours ("contour") or filled ("contourf")"""
        name = "%s: %s of %s" % (self.ax.name, kind, what)
        calls = self.ax.drawn(kind) if kind == "contour" else self.ax.drawn("contourf", "pcolormesh", "pcolor")
        if not calls and optional:
            return
        if len(calls) != 1 or len(calls[0][1]) < 3:
            return self.c.violated(name, "%d times %s" % (len(calls), kind))
        x, y, z = calls[0][1][:3]
        g = self.g
        self.xy(name, x, y, (g.nlat, g.nlon), g.lon, g.lat)
        self.r.field(name, z, f)
        self.r.labels(self.c, "%s: labels" % self.ax.name, self.ax)

    def vectors(self, u, v):
        c, g = self.c, self.g
        name = self.ax.name + ": wind vectors"
        calls = self.ax.drawn("quiver")
        if not calls:
            i, j = gfresh("q"), gfresh("q")
            b = [(i, g.nlat), (j, g.nlon)]
            D.N.NP  # no vectors only without wind
            prove(name + " missing without wind only", band(*[
                eq(D.N.NP.linalg.norm(SymArray((g.nlat, g.nlon), "f", f)).p, ZERO) for f in (u, v)]))
            return
        if len(calls) != 1 or len(calls[0][1]) != 4:
            return c.violated(name, "%d times quiver" % len(calls))
        x, y, U, V = calls[0][1]
        shape = U._shape
        prove_shape(name, V, shape)
        r, k = T.var("vr", "i"), T.var("vk", "i")
        inside = band(ge(r, ZERO), lt(r, shape[0]), ge(k, ZERO), lt(k, shape[1]))
        if not c.decide(inside):
            return
        look_at(c, r)
        look_at(c, k)
        at = lambda a, ax: a.get((r, k) if len(a._shape) == 2 else ((r, k)[ax],))
        # the gridpoint from the coordinates
        C = at(x, 1) * g.N / 180
        R = (90 - at(y, 0)) * g.N / 180
        prove_is(name + " at gridpoints", C.sort == "i" and R.sort == "i", "%s, %s" % (T.show(C), T.show(R)))
        prove(name + " inside the grid", band(ge(C, ZERO), lt(C, g.nlon), ge(R, ZERO), lt(R, g.nlat)))
        prove_eq(name + ": u", U.get((r, k)), u((R, self.r.col(C))))
        prove_eq(name + ": v", V.get((r, k)), v((R, self.r.col(C))))

    def lines(self, *want):
        """the line plots of the panel, in any order: profiles against latitude"""
        c, g = self.c, self.g
        calls = [x for x in self.ax.drawn("plot")]
        if len(calls) != len(want):
            return c.violated(self.ax.name + ": lines", "%d lines" % len(calls))
        for (what, f), (_, a, k) in zip(want, calls):
            name = "%s: %s" % (self.ax.name, what)
            parr(name, a[0], (g.nlat,), f)
            parr(name + " against latitude", a[1], (g.nlat,), g.lat)


def preset(c, name):
    p, pkg = mpl()
    g = G(pkg)
    s = Fake(g)
    own_object(s, "State")
    kw = {"center_lon": real("center")} if c.fork() else {}
    hemi = choose(c, ["both", "N"])
    if hemi != "both":
        kw["hemisphere"] = hemi
    center = kw.get("center_lon", 180)
    if name == "rwp_diagnostics":
        diagnosed(c, pkg, g, s)
    r = Callees(c, pkg, g, center)
    getattr(pkg.plot, name)(s, **kw)
    if not r.used:
        r = Rolled(c, g, r.real(g.grid.lon, center)[0], None)
    return p, g, s, [[Panel(c, g, r, ax) for ax in row] for row in p.rows]


class Callees(Rolled):
    """contracts of roll_lon and symmetric_levels, decided above: some column K comes into the middle, in every field; the labels are right"""

    def __init__(self, c, pkg, g, center):
        self.g, self.name, self.used = g, "", False
        self.m = floor(g.nlon / 2)
        self.K = T.var("K", "i")
        c.require(band(ge(self.K, ZERO), lt(self.K, g.nlon)))
        self.real = pkg.plot.roll_lon

        def roll(f):
            f = D.N.NP.asarray(f).snapshot()
            prove_shape("field to roll", f, (g.nlat, g.nlon))
            return SymArray(f._shape, f.kind, lambda i: f.get((i[0], self.col(i[1]))))

        def configure(ax):
            ax.rolled = self

        def roll_lon(lon, center_lon=180):
            self.used = True
            prove_same("rolled longitudes", lon, g.grid.lon)
            prove_eq("centre longitude", center_lon, center)
            return roll, configure

        def levels(x, n=10, ext=None):
            return uarray("LEVELS", (topoly(n),))
        replace(pkg, "plot.roll_lon", roll_lon)
        replace(pkg, "plot.symmetric_levels", levels)

    def labels(self, c, name, ax):
        if ax.rolled is None:
            return super().labels(c, name, ax)
        prove_is(name, ax.rolled is self)


def mean(g, f):
    return lambda j: vsum(g.nlon, lambda i: topoly(f((topoly(j), topoly(i))))) / g.nlon


def scaled(f):
    return lambda i: 10000 * topoly(f(i))


PRE = [PL + "roll_lon", PL + "configure_lon_x", PL + "symmetric_levels", PL + "configure_lat_y"]


@unit("C20", "summary", under=PRE + [PL + "summary", PL + "reduce_vectors"], max_paths=3000, seconds=600)
def summary(c):
    p, g, s, ((a11, a12), (a21, a22)) = preset(c, "summary")
    pv = scaled(s.pv.get)
    a11.lines(("planetary vorticity", lambda j: 10000 * g.f(j)),
              ("zonal-mean vorticity", lambda j: 10000 * mean(g, s.vorticity.get)(j)),
              ("zonal-mean PV", lambda j: 10000 * mean(g, s.pv.get)(j)))
    a12.field("contourf", "PV", pv)
    a12.vectors(s.u.get, s.v.get)
    a21.lines(("zonal-mean zonal wind", mean(g, s.u.get)))
    a22.field("contourf", "meridional wind", s.v.get)
    a22.field("contour", "streamfunction", s.streamfunction.get, optional=True)


@unit("C20", "wave_activity", under=PRE + [PL + "wave_activity"], max_paths=3000, seconds=600)
def wave_activity(c):
    p, g, s, ((a11, a12), (a21, a22)) = preset(c, "wave_activity")
    pv = scaled(s.pv.get)
    a11.lines(("zonalized PV", lambda j: 10000 * s.pv_zonalized.get((j,))),
              ("zonal-mean PV", lambda j: 10000 * mean(g, s.pv.get)(j)))
    a12.field("contourf", "PV anomaly", lambda i: 10000 * (s.pv.get(i) - s.pv_zonalized.get((i[0],))))
    a12.field("contour", "PV", pv)
    a21.lines(("FAWA", lambda j: s.fawa.get((j,))))
    a22.field("contourf", "FALWA", s.falwa.get)
    a22.field("contour", "PV", pv)


def diagnosed(c, pkg, g, s):
    """contracts of the diagnostics used (decided in C18)"""
    import inspect

    def stub(name, f):
        sig = inspect.signature(getattr(pkg.diagnostics, name))

        def g_(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            return f(*b.arguments.values())
        replace(pkg, "diagnostics." + name, g_)

    def dwn(v, grid, *k):
        prove_same("dominant wavenumber of the meridional wind", v, s.v)
        prove_is("dominant wavenumber on the grid", grid is g.grid)
        return uarray("DWN", (g.nlat, g.nlon), owner="dominant wavenumber")

    def filtered(f, w, *k):
        prove_same("filtered FALWA", f, s.falwa)
        parr("filtered by twice the dominant wavenumber", w, (g.nlat, g.nlon), lambda i: 2 * app("DWN", list(i)))
        return uarray("FILTERED", (g.nlat, g.nlon), owner="filtered FALWA")
    stub("dominant_wavenumber_wavelet", dwn)
    stub("filter_by_wavenumber", filtered)


@unit("C20", "rwp_diagnostics", under=PRE + [PL + "rwp_diagnostics"], max_paths=3000, seconds=600)
def rwp(c):
    p, g, s, ((a1,), (a2,), (a3,)) = preset(c, "rwp_diagnostics")
    a1.field("contourf", "meridional wind", s.v.get)
    a1.field("contour", "dominant wavenumber", lambda i: app("DWN", list(i)), optional=True)
    a2.field("contourf", "envelope", s.v_envelope_hilbert.get)
    a2.field("contour", "streamfunction", s.streamfunction.get, optional=True)
    a3.field("contourf", "filtered FALWA", lambda i: app("FILTERED", list(i)))
    a3.field("contour", "PV", s.pv.get)


class Drawing(E.GenericFor):
    """A loop over any number of items that draws: the drawings of an arbitrary iteration are checked by `each`, and
    every iteration is as arbitrary as this one; `log` is the list of the drawings, which the loop may only extend"""

    def __init__(self, seq, log, each):
        super().__init__(seq)
        self.log, self.each, self.left = log, each, False

    def begin(self, L):
        self.log_before = list(self.log)
        return super().begin(L)

    def end_body(self, L, env):
        b = self.log_before
        if len(self.log) < len(b) or any(x is not y for x, y in zip(self.log, b)):
            raise Unsupported("drawings removed in a loop")
        new = self.log[len(b):]
        del self.log[len(b):]
        self.each(self.i, new)
        super().end_body(L, env)

    def exit(self, L):
        super().exit(L)
        self.left = True


@unit("C20", "waveguides", under=[PL + "waveguides", PL + "configure_lat_y"])
def waveguides(c):
    """any number of waveguides for none, one or any number of wavenumbers"""
    p, pkg = mpl()
    g = G(pkg)
    s = Fake(g)
    own_object(s, "State")
    how = choose(c, ["none", "number", "one", "any", "any (generator)"])
    k = real("k1")
    if how.startswith("any"):
        nk = T.var("wavenumbers", "i")
        c.require(ge(nk, ZERO))
        ks = SymSeq(nk, lambda i: Num(app("WAVENUMBER", [i])), "iter" if "gen" in how else "list")
    else:
        ks = {"none": None, "number": k, "one": [k]}[how]

    def count(k):
        return app("NWG", [topoly(k)], "i")

    def extract(ks_, k, grid=None, lat=None, **kw):
        prove_same("waveguides of Ks", ks_, s.stationary_wavenumber)
        prove_is("on the grid", grid is g.grid)
        c.require(ge(count(k), ZERO))
        # any number of waveguides (the loop contract looks at none, at least one)
        return SymSeq(count(k), lambda m: (Num(app("WS", [topoly(k), m])), Num(app("WN", [topoly(k), m]))))
    replace(pkg, "diagnostics.extract_ks_waveguides", extract)

    def segments(k, drawn):
        """the waveguides of wavenumber k: pairs of boundaries at this wavenumber, separated by NaN"""
        lines = [x for x in drawn if x[0] == "plot"]
        if len(lines) != 1 or len(lines[0][1]) < 2:
            return c.violated("waveguides of a wavenumber", "%d lines" % len(lines))
        X, Y = lines[0][1][:2]
        n = count(k)
        nx, ny = topoly(E.v_len(X)), topoly(E.v_len(Y))
        prove_eq("as many coordinates", nx, ny)
        prove_eq("three entries per waveguide", ny, n * 3)
        m = T.gfresh("waveguide")
        c.require(ge(m, ZERO))
        if not c.decide(lt(m, n)):
            return
        at = lambda l, q: l[int(q.const())] if isinstance(l, (list, tuple)) else l[Num(q)]
        if not (isinstance(X, SymSeq) or isinstance(Y, SymSeq)):
            m = const(m.const()) if m.const() is not None else m
        if isinstance(X, (list, tuple)) or isinstance(Y, (list, tuple)):
            for q in range(max(len(l) for l in (X, Y) if isinstance(l, (list, tuple))) // 3):
                if c.decide(eq(m, const(q))):
                    m = const(q)
        prove_is("separated", at(Y, m * 3) is D.N.NP.nan)
        for d, w in ((1, "WS"), (2, "WN")):
            prove_eq("waveguide at its wavenumber", at(X, m * 3 + d), k)
            prove_eq("boundary of the waveguide", at(Y, m * 3 + d), app(w, [topoly(k), m]))

    loops = []

    def handler(label, it, env):
        if it is ks and isinstance(ks, SymSeq):
            log = p.rows[0][1].calls
            loops.append(Drawing(ks, log, lambda i, new: segments(ks.fn(i), new)))
            return loops[-1]
    c.ex.loop_handlers.append(handler)
    try:
        f = pkg.plot.waveguides
        if ks is None and c.fork():
            f(s)
        else:
            f(s, ks)
    finally:
        c.ex.loop_handlers.remove(handler)
    ((a1, a2),) = p.rows
    Panel(c, g, None, a1).lines(("zonal-mean zonal wind", mean(g, s.u.get)))
    lines = a2.drawn("plot")
    curve = [x for x in lines if E._isarr(x[1][1])]
    segs = [x for x in lines if not E._isarr(x[1][1])]
    if len(curve) != 1:
        return c.violated("lines", "%d curves" % len(curve))
    a = curve[0][1]
    kk = lambda j: s.stationary_wavenumber.get((j,))
    parr("stationary wavenumber", a[0], (g.nlat,), lambda j: D.N.cre(kk(j)) - D.N.cim(kk(j)))
    parr("stationary wavenumber against latitude", a[1], (g.nlat,), g.lat)
    if how in ("number", "one"):
        segments(k, segs)
    else:
        prove_is("no other lines", not segs)
        if how != "none":
            prove_is("all wavenumbers drawn", len(loops) == 1 and loops[0].left, "%d loops" % len(loops))


@unit("C20", "State.plot", under=["state.State.plot"] + ["state.StatePlotter." + n for n in (
    "__init__", "summary", "wave_activity", "rwp_diagnostics", "waveguides")])
def plotter(c):
    p, pkg = mpl()
    g = G(pkg)
    s = pkg.state.State(g.grid, real("time"), pv_spectral=g.spec("S"))
    for name in ("summary", "wave_activity", "rwp_diagnostics", "waveguides"):
        seen = []
        replace(pkg, "plot." + name, lambda *a, **k: seen.append((a, k)))
        x, y = real("x"), real("y")
        getattr(s.plot, name)(x, hemisphere=y)
        prove_is(name + " of this State", len(seen) == 1 and len(seen[0][0]) == 2 and seen[0][0][0] is s and seen[0][0][1] is x
                 and list(seen[0][1]) == ["hemisphere"] and seen[0][1]["hemisphere"] is y)


small_integers("C20", "symmetric_levels", "reduce_vectors")
