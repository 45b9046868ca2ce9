from .common import *

R = "rhs."


def two(c):
    """two grids that are not equal, with a state on each"""
    pkg = package()
    g, h = G(pkg), G(pkg, "h", ntrunc="sym")
    c.require(bor(bnot(eq(g.N, h.N)), ge(h.r, g.r * 2), ge(h.omega, T.absr(g.omega) * 2 + 1), bnot(eq(g.nt, h.nt))))
    return pkg, g, h


def state(pkg, g, name, t=None):
    S = g.spec(name)
    s = pkg.state.State(g.grid, real("t_" + name) if t is None else t, pv_spectral=S)
    return s, S


def wind(g, S):
    sp = Sp(g)
    nz = SymArray((g.ns,), "c", lambda i: ZERO)
    F = sp.s(SymArray((g.nlat, g.nlon), "f", lambda i: g.f(i[0])))
    return sp.uv(SymArray((g.ns,), "c", lambda i: S.get(i) - F.get(i)), nz)


def terms(c, pkg, g, names="abc"):
    """arbitrary forcing terms: field-valued or number-valued functions of the state"""
    out = []
    for n in names:
        val = uarray("VAL" + n, (g.nlat, g.nlon), owner="value of term " + n)

        class Term(pkg.rhs.RHS):
            def __init__(self, n, val):
                self.n, self.val, self.seen = n, val, []

            def __call__(self, state):
                self.seen.append(state)
                return self.val
        out.append(Term(n, val))
    return out


@unit("C11", "sums and products", under=[R + k for k in ("RHS.__add__", "RHS.__radd__", "RHS.__mul__", "RHS.__rmul__",
      "_RHSSum.__init__", "_RHSSum.__call__", "_RHSProduct.__init__", "_RHSProduct.__call__")])
def algebra(c):
    """Values of a + b and a * b, for terms a, b that are arbitrary or themselves sums or products: with these, by
    induction over the expression, those of every expression"""
    pkg = package()
    g = G(pkg)
    s, _ = state(pkg, g, "S")
    ts = terms(c, pkg, g, "abcd")
    a, b, d, e = ts
    V = {t: (lambda i, t=t: t.val.get(i)) for t in ts}

    def E(x):
        """(expression, its value)"""
        return x, V[x]

    def add(x, y):
        return x[0] + y[0], lambda i: x[1](i) + y[1](i)

    def mul(x, y):
        return x[0] * y[0], lambda i: x[1](i) * y[1](i)
    A, B_, D_, X = E(a), E(b), E(d), E(e)
    ab, axb = add(A, B_), mul(A, B_)
    dx, dd = add(D_, X), mul(D_, X)
    exprs = {"a+b": ab, "a*b": axb, "c+d": dx, "c*d": dd, "a+a": add(A, A), "a*a": mul(A, A)}
    for n1, op in (("+", add), ("*", mul)):
        for n2, l in (("(a+b)", ab), ("(a*b)", axb)):
            exprs[n2 + n1 + "c"] = op(l, D_)
            exprs["c" + n1 + n2] = op(D_, l)
            for n3, r in (("(c+d)", dx), ("(c*d)", dd), ("(a+b)", ab), ("(a*b)", axb)):
                exprs[n2 + n1 + n3] = op(l, r)
    for n, (x, v) in exprs.items():
        prove_is(n + ": a forcing term", isinstance(x, pkg.rhs.RHS))
        prove_array(n, x(s), (g.nlat, g.nlon), lambda j, i, v=v: v((j, i)))
    # again, after all of them were evaluated
    for n, (x, v) in list(exprs.items())[:10]:
        prove_array(n + " again", x(s), (g.nlat, g.nlon), lambda j, i, v=v: v((j, i)))
    for t in ts:
        prove_is("terms are evaluated for the state", t.seen and all(q is s for q in t.seen))


@unit("C11", "sums and products of numbers", under=[R + "_RHSSum.__call__", R + "_RHSProduct.__call__"])
def algebra_numbers(c):
    pkg = package()
    g = G(pkg)
    s, _ = state(pkg, g, "S")
    x, y = real("x"), real("y")

    class Const(pkg.rhs.RHS):
        def __init__(self, v): self.v = v

        def __call__(self, state): return self.v
    a, b = Const(x), Const(y)
    (f,) = terms(c, pkg, g, "f")
    prove_eq("number + number", (a + b)(s), x.p + y.p)
    prove_eq("number * number", (a * b)(s), x.p * y.p)
    prove_array("number + field", (a + f)(s), (g.nlat, g.nlon), lambda j, i: x.p + f.val.get((j, i)))
    prove_array("field * number", (f * b)(s), (g.nlat, g.nlon), lambda j, i: f.val.get((j, i)) * y.p)
    prove_array("number * (field + number)", (a * (f + b))(s), (g.nlat, g.nlon), lambda j, i: x.p * (f.val.get((j, i)) + y.p))


@unit("C11", "TimedOffSwitch", under=[R + "TimedOffSwitch.__init__", R + "TimedOffSwitch.__call__"])
def switch(c):
    pkg = package()
    g = G(pkg)
    time, step = clock(c, "number" if c.fork() else "datetime")
    t, tend = time("t"), time("tend")
    s, _ = state(pkg, g, "S", t)
    sw = pkg.rhs.TimedOffSwitch(tend)
    prove_eq("value", sw(s), ite(le(seconds(t), seconds(tend)), ONE, ZERO))
    # for every State, whatever was evaluated before
    t2 = time("t2")
    s2, _ = state(pkg, g, "S2", t2)
    prove_eq("value for another State", sw(s2), ite(le(seconds(t2), seconds(tend)), ONE, ZERO))
    prove_eq("value for the first State again", sw(s), ite(le(seconds(t), seconds(tend)), ONE, ZERO))


@unit("C11", "TimedOffSwitch times a term", under=[R + "TimedOffSwitch.__call__", R + "_RHSProduct.__call__"])
def switch_term(c):
    pkg = package()
    g = G(pkg)
    t, tend = real("t"), real("tend")
    s, _ = state(pkg, g, "S", t)
    (a,) = terms(c, pkg, g, "a")
    sw = pkg.rhs.TimedOffSwitch(tend)
    want = lambda j, i: ite(le(t.p, tend.p), a.val.get((j, i)), ZERO)
    prove_array("switch * term", (sw * a)(s), (g.nlat, g.nlon), want)
    prove_array("term * switch", (a * sw)(s), (g.nlat, g.nlon), want)


@unit("C11", "LinearRelaxation", under=[R + "LinearRelaxation.__init__", R + "LinearRelaxation.__call__"])
def relaxation(c):
    pkg = package()
    g = G(pkg)
    s, S = state(pkg, g, "S")
    q = Sp(g).g_(S)
    ref = g.field("ref")
    rate = real("rate")
    t = pkg.rhs.LinearRelaxation(rate, ref)
    want = lambda j, i: rate.p * (ref.get((j, i)) - q.get((j, i)))
    prove_array("value", t(s), (g.nlat, g.nlon), want)
    prove_array("value again", t(s), (g.nlat, g.nlon), want)
    s2, S2 = state(pkg, g, "S2")
    q2 = Sp(g).g_(S2)
    prove_array("value for another State", t(s2), (g.nlat, g.nlon), lambda j, i: rate.p * (ref.get((j, i)) - q2.get((j, i))))
    rf = g.field("rate")
    prove_array("rate field", pkg.rhs.LinearRelaxation(rf, ref)(s), (g.nlat, g.nlon),
                lambda j, i: rf.get((j, i)) * (ref.get((j, i)) - q.get((j, i))))


OR = [R + "Orography.__init__", R + "Orography.__call__", R + "Orography._orography_gradient", "grid.Grid.gradient",
      "grid.Grid.__hash__", "grid.Grid.__eq__"]


def mountain_class(pkg, gs):
    """an Orography with an arbitrary orography on every grid"""
    class Mountain(pkg.rhs.Orography):
        def __init__(self, name, **kw):
            super().__init__(None, None, None, **kw)
            self.name = name

        def orography(self, grid):
            for g in gs:
                if grid is g.grid:
                    return uarray("OROG_%s_%d" % (self.name, gs.index(g)), (g.nlat, g.nlon), owner="orography")
            raise Unsupported("orography of an unknown grid")
    return Mountain


def expected(g, S, oro, kind, fact, H, f0):
    u, v = wind(g, S)
    gx, gy = Sp(g).grad(oro)

    def want(j, i):
        if kind == "act":
            U, V = fact * u.get((j, i)), fact * v.get((j, i))
        elif kind == "zon":
            U, V = fact * vsum(g.nlon, lambda k: u.get((j, k))) / g.nlon, ZERO
        else:
            U, V = fact * app("cos", [g.phi(j)]), ZERO
        f = g.f(j) if f0 is None else f0
        return -f / H * (U * gx.get((j, i)) + V * gy.get((j, i)))
    return want


def orography_unit(kind, fixed):
    def f(c):
        pkg = package()
        g = G(pkg) if c.fork() else G(pkg, ntrunc="sym")
        s, S = state(pkg, g, "S")
        H = T.var("H", nonzero=True)
        c.require(bnot(eq(H, ZERO)))
        fact = T.var("fact")
        f0 = T.var("f0") if fixed else None
        kw = dict(wind=(kind, Num(fact)), scale_height=Num(H))
        if fixed:
            kw["fcor_ref"] = Num(f0)
        m = mountain_class(pkg, [g])("m", **kw)
        oro = m.orography(g.grid)
        want = expected(g, S, oro, kind, fact, H, f0)
        prove_array("value", m(s), (g.nlat, g.nlon), want)
        prove_array("value again", m(s), (g.nlat, g.nlon), want)
    return f


for _k in ("act", "zon", "sbr"):
    for _f in (False, True):
        unit("C11", "Orography, %s wind, %s" % (_k, "fixed f" if _f else "actual f"), under=OR)(orography_unit(_k, _f))


@unit("C11", "Orography, defaults", under=OR)
def orography_defaults(c):
    pkg = package()
    g = G(pkg)
    s, S = state(pkg, g, "S")
    m = mountain_class(pkg, [g])("m")
    want = expected(g, S, m.orography(g.grid), "act", ONE, const(10000), None)
    prove_array("value", m(s), (g.nlat, g.nlon), want)
    rejected("unknown wind", lambda: mountain_class(pkg, [g])("m", wind=("other", 1.)))


@unit("C11", "Orography on several grids", under=OR)
def orography_grids(c):
    """the orography of the grid of the evaluated state, whatever was evaluated before"""
    pkg, g, h = two(c)
    s, S = state(pkg, g, "S")
    t, Tt = state(pkg, h, "T")
    Mt = mountain_class(pkg, [g, h])
    m, n = Mt("m"), Mt("n")
    H = const(10000)
    w = lambda mt, gg, SS: expected(gg, SS, mt.orography(gg.grid), "act", ONE, H, None)
    m(s)
    prove_array("second grid", m(t), (h.nlat, h.nlon), w(m, h, Tt))
    prove_array("first grid again", m(s), (g.nlat, g.nlon), w(m, g, S))
    prove_array("second mountain", n(s), (g.nlat, g.nlon), w(n, g, S))
    prove_array("second mountain, second grid", n(t), (h.nlat, h.nlon), w(n, h, Tt))
    prove_array("first mountain again", m(t), (h.nlat, h.nlon), w(m, h, Tt))


@unit("C11", "Orography.orography", under=[R + "Orography.orography"])
def orography_interp(c):
    pkg = package()
    g = G(pkg)
    ny, nx = T.var("ny", "i", pos=True), T.var("nx", "i", pos=True)
    for v in (ny, nx):
        c.require(ge(v, const(2)))
    lon, lat = uarray("olon", (nx,), owner="lon"), uarray("olat", (ny,), owner="lat")
    oro = uarray("oro", (ny, nx), owner="orography")
    got = pkg.rhs.Orography(lon, lat, oro).orography(g.grid)

    def interp(x, n, nodes, vals):
        v, w = gfresh("n"), gfresh("n")
        return D.N.np_interp(x, [(v, n)], nodes(v), [(w, n)], vals(w))

    def want(j, i):
        return interp(g.lon(i), nx, lambda k: lon.get((k,)), lambda k: interp(
            -g.lat(j), ny, lambda l: -lat.get((l,)), lambda l: oro.get((l, k))))
    prove_array("linear in latitude and longitude", got, (g.nlat, g.nlon), want)


@unit("C11", "GaussianMountain", under=[R + "GaussianMountain.__init__", R + "GaussianMountain.orography"])
def gaussian(c):
    pkg = package()
    g = G(pkg)
    h, x, y = real("height"), real("lon0"), real("lat0")
    a, b = real("sx", pos=True), real("sy", pos=True)

    def want(h, x, y, a, b):
        h, x, y, a, b = (topoly(k) for k in (h, x, y, a, b))
        e = lambda d, s: app("exp", [-(d * d) / (s * s) / 2])
        return lambda j, i: h * e(g.lon(i) - x, a) * e(g.lat(j) - y, b)
    sh = (g.nlat, g.nlon)
    M = pkg.rhs.GaussianMountain
    prove_array("two widths", M(height=h, center=(x, y), stdev=(a, b)).orography(g.grid), sh, want(h, x, y, a, b))
    prove_array("positional", M(h, (x, y), (a, b)).orography(g.grid), sh, want(h, x, y, a, b))
    prove_array("one width", M(h, (x, y), stdev=a).orography(g.grid), sh, want(h, x, y, a, a))
    prove_array("defaults", M().orography(g.grid), sh, want(1500, 30, 45, const(15) / 2, 20))


@unit("C11", "ZonalSineMountains", under=[R + "ZonalSineMountains.__init__", R + "ZonalSineMountains.orography"])
def sine(c):
    pkg = package()
    g = G(pkg)
    h, y, b = real("height"), real("lat0"), real("sy", pos=True)
    k = integer("wavenumber", pos=True)

    def want(h, y, b, k):
        h, y, b, k = (topoly(q) for q in (h, y, b, k))
        return lambda j, i: h * (ONE + app("cos", [k * g.lam(i)])) / 2 * app("exp", [-((g.lat(j) - y) ** 2) / (b * b) / 2])
    sh = (g.nlat, g.nlon)
    M = pkg.rhs.ZonalSineMountains
    prove_array("given", M(height=h, center_lat=y, stdev_lat=b, wavenumber=k).orography(g.grid), sh, want(h, y, b, k))
    prove_array("positional", M(h, y, b, k).orography(g.grid), sh, want(h, y, b, k))
    prove_array("defaults", M().orography(g.grid), sh, want(1500, 45, 10, 4))


@unit("C11", "built-in mountains as forcing", under=OR + [R + "GaussianMountain.orography", R + "ZonalSineMountains.orography"])
def mountains(c):
    """the forcing of a built-in mountain uses its own orography and the options of the base class"""
    pkg = package()
    g = G(pkg)
    s, S = state(pkg, g, "S")
    fact, H, f0 = T.var("fact"), T.var("H", nonzero=True), T.var("f0")
    c.require(bnot(eq(H, ZERO)))
    for M in (pkg.rhs.GaussianMountain, pkg.rhs.ZonalSineMountains):
        m = M(wind=("zon", Num(fact)), scale_height=Num(H), fcor_ref=Num(f0))
        prove_array(M.__name__, m(s), (g.nlat, g.nlon), expected(g, S, m.orography(g.grid), "zon", fact, H, f0))


small_integers("C11", "Orography.orography")
