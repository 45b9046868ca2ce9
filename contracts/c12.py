from .common import *

EL = ["grid.Grid.equivalent_latitude"]
ZO = ["grid.Grid.zonalize", "grid.Grid.interpolate_meridional", "grid.Grid.interp1d_meridional", "grid.Grid.quad"]
IN = ["grid.Grid.interp1d_meridional", "grid.Grid.interpolate_meridional"]


def eqlat(g, a):
    s = 1 - a / (2 * PI * g.r * g.r)
    return app("arcsin", [T.pmin(T.pmax(s, const(-1)), ONE)]) * 180 / PI


# -- equivalent latitude -----------------------------------------------------------------------------------------
@unit("C12", "equivalent_latitude", under=EL)
def equivalent(c):
    pkg = package()
    g = G(pkg)
    a = T.var("A")
    prove_eq("scalar", g.grid.equivalent_latitude(Num(a)), eqlat(g, a))
    n, m = T.var("n", "i", pos=True), T.var("m", "i", pos=True)
    c.require(ge(n, ONE))
    c.require(ge(m, ONE))
    arr = uarray("a", (n,), owner="area")
    prove_array("array", g.grid.equivalent_latitude(arr), [n], lambda i: eqlat(g, app("a", [i])))
    arr = uarray("b", (n, m), owner="area")
    prove_array("2-dimensional array", g.grid.equivalent_latitude(arr), [n, m], lambda i, j: eqlat(g, app("b", [i, j])))
    for k in (0, 10**12, -5):
        prove_eq("number %d" % k, g.grid.equivalent_latitude(k), eqlat(g, const(k)))


@unit("C12", "area law", under=[])
def law(c):
    """lemma: the specified latitude phi has 2 pi r^2 (1 - sin phi) = A for areas of 0...4 pi r^2, and is a pole else"""
    x, A, r = T.var("x"), T.var("A"), T.var("r", pos=True)
    c.require(gt(r, ZERO))
    # s = 1 - A/(2 pi r^2);  arcsin is the inverse of sin on [-90, 90] degrees
    s = T.var("s")
    c.require(eq(s * (2 * PI * r * r), 2 * PI * r * r - A))
    phi = app("arcsin", [s])
    c.require(implies(band(ge(s, const(-1)), le(s, ONE)), eq(app("sin", [phi]), s)))
    full = 4 * PI * r * r
    if c.decide(band(ge(A, ZERO), le(A, full))):
        t = T.var("t", pos=True)
        c.require(eq(t, 2 * PI * r * r))
        c.require(gt(t, ZERO))
        c.require(eq(s * t, t - A))
        prove("sine in range, above", le(s, ONE))
        prove("sine in range, below", ge(s, const(-1)))
        sphi = app("sin", [phi])
        c.require(eq(sphi, s))                           # from the two facts above
        prove_eq("area north of it", t - t * s, A)
        prove("not beyond the poles", band(le(phi, PI / 2), ge(phi, -PI / 2)))
    clip = T.pmin(T.pmax(s, const(-1)), ONE)
    if c.decide(gt(s, ONE)):
        prove_eq("no area: North Pole", clip, ONE)
    elif c.decide(lt(s, const(-1))):
        prove_eq("full sphere: South Pole", clip, const(-1))
    else:
        prove_eq("unclipped", clip, s)


# -- interpolation -------------------------------------------------------------------------------------------------
@unit("C12", "interp1d_meridional", under=IN)
def interpolation(c):
    pkg = package()
    g = G(pkg)
    n, w, m = (T.var(k, "i", pos=True) for k in "nwm")
    for k in (n, w, m):
        c.require(ge(k, ONE))
    pN, pS = T.var("pN"), T.var("pS")
    lat = uarray("lat", (n,), owner="lat")
    f1, f2 = uarray("f1", (n,), owner="field"), uarray("f2", (n, w), owner="field")
    q = uarray("q", (m,), owner="query")
    L = lambda k: app("lat", [k])
    for kw in ({}, {"kind": "linear"}, {"kind": "nearest"}, {"kind": "cubic"}):
        kind = kw.get("kind", "linear")
        nm = kind if kw else "default"
        F = g.grid.interp1d_meridional(f1, lat, (Num(pN), Num(pS)), **kw)
        prove_array(nm + ": profile", F(q), [m], lambda k: interp_spec(n, L, lambda i: app("f1", [i]), (pN, pS), app("q", [k]), kind))
        F = g.grid.interp1d_meridional(f2, lat, (Num(pN), Num(pS)), **kw)
        prove_array(nm + ": field", F(q), [m, w], lambda k, i:
                    interp_spec(n, L, lambda j: app("f2", [j, i]), (pN, pS), app("q", [k]), kind))
        r = g.grid.interpolate_meridional(f1, lat, pole_values=(Num(pN), Num(pS)), **kw)
        prove_array(nm + ": onto the grid", r, [g.nlat], lambda k:
                    interp_spec(n, L, lambda i: app("f1", [i]), (pN, pS), g.lat(k), kind))
        r = g.grid.interpolate_meridional(f2, lat, (Num(pN), Num(pS)), **kw)
        prove_array(nm + ": fields onto the grid", r, [g.nlat, w], lambda k, i:
                    interp_spec(n, L, lambda j: app("f2", [j, i]), (pN, pS), g.lat(k), kind))
    fi = uarray("fi", (n,), "i", owner="field")
    r = g.grid.interpolate_meridional(fi, lat, (Num(pN), Num(pS)))
    prove_array("integer profile", r, [g.nlat], lambda k:
                interp_spec(n, L, lambda i: app("fi", [i], "i"), (pN, pS), g.lat(k)))


@unit("C12", "values at the poles", under=IN)
def poles(c):
    """lemma over the nodes handed to the interpolation: the first is 90 with the North Pole value, the last -90 with the
    South Pole value, and every other node is strictly between the poles (so a scheme that reproduces its nodes returns the
    pole values at the poles)"""
    pkg = package()
    g = G(pkg)
    n, w = (T.var(k, "i", pos=True) for k in "nw")
    for k in (n, w):
        c.require(ge(k, ONE))
    pN, pS = T.var("pN"), T.var("pS")
    lat = uarray("lat", (n,), owner="lat")
    for nm, f in (("profile", uarray("f1", (n,), owner="field")), ("field", uarray("f2", (n, w), owner="field"))):
        seen = c.ex.shared.setdefault("interp1d", [])
        del seen[:]
        g.grid.interp1d_meridional(f, lat, (Num(pN), Num(pS)))
        prove_is(nm + ": one interpolation", len(seen) == 1)
        x, y, ax = seen[0].x, seen[0].y, seen[0].axis
        prove_is(nm + ": along the latitude", ax == 0)
        m = x._shape[0]
        i = gfresh("i")
        at = (lambda k: y.get((k, i))) if y.ndim == 2 else (lambda k: y.get((k,)))
        cnt = m - 2
        c.require(ge(cnt, ZERO))                         # a number of positions is not negative
        prove_eq(nm + ": North Pole node", x.get((ZERO,)), const(90))
        prove_eq(nm + ": South Pole node", x.get((m - 1,)), const(-90))
        prove(nm + ": North Pole value", forall([(i, w)], eq(at(ZERO), pN)))
        prove(nm + ": South Pole value", forall([(i, w)], eq(at(m - 1), pS)))
        mask = N.opaque_positions(abs(lat) < 90)
        k = gfresh("k")
        prove(nm + ": other nodes", forall([(k, cnt)], eq(x.get((k + 1,)), app("lat", [mask.get((k,))]))))


# -- zonalisation ----------------------------------------------------------------------------------------------------
def check_zonalize(pkg, g, w, nm, method, kw, ncont, contour, fld="f"):
    f = uarray(fld, (g.nlat, w), owner="field")
    F = lambda j, i: app(fld, [j, i])
    qmax, qmin = topoly(NP.max(f)), topoly(NP.min(f))
    Q = lambda k: contour(k, qmin, qmax)
    area = lambda k: quad_term(g, w, method, lambda j, i: ONE, lambda j, i: F(j, i) - Q(k))
    Y = lambda k: eqlat(g, area(k) * g.nlon / w)
    q, y = g.grid.zonalize(f, interpolate=False, **kw)
    prove_array(nm + ": contours", q, [ncont], Q)
    prove_array(nm + ": equivalent latitudes", y, [ncont], Y)
    prove_array(nm + ": interpolated", g.grid.zonalize(f, **kw), [g.nlat], lambda k:
                interp_spec(ncont, Y, Q, (qmax, qmin), g.lat(k)))


def default_contour(n):
    def q(k, qmin, qmax):
        s = app("sin", [PI / 2 * (-1 + (k + 1) * 2 / (topoly(n) + 1))])
        return ((qmax - qmin) * s + qmin + qmax) / 2
    return q


def zonal(nm, w_of, method, kw):
    @unit("C12", "zonalize(%s)" % nm, under=ZO)
    def z(c):
        pkg = package()
        g = G(pkg)
        use_quad_meridional(pkg, g)
        w = w_of(c, g)
        n0 = g.nlat * (2 if method == "boxcount" else 1)
        check_zonalize(pkg, g, w, "default levels", method, kw, n0, default_contour(n0))
        n = T.var("n", "i", pos=True)
        c.require(ge(n, ONE))
        check_zonalize(pkg, g, w, "number of levels", method, dict(kw, levels=Num(n)), n, default_contour(n))
        lv = uarray("lv", (n,), owner="levels")
        check_zonalize(pkg, g, w, "given levels", method, dict(kw, levels=lv), n, lambda k, a, b: app("lv", [k]))
        li = uarray("li", (n,), "i", owner="levels")
        check_zonalize(pkg, g, w, "given integer levels", method, dict(kw, levels=li), n, lambda k, a, b: app("li", [k], "i"))


def sector(c, g):
    w = T.var("W", "i", pos=True)
    c.require(ge(w, ONE))
    c.require(le(w, g.nlon))
    return w


zonal("sptrapz", sector, "sptrapz", {"quad": "sptrapz"})
zonal("default", sector, "sptrapz", {})
zonal("boxcount", sector, "boxcount", {"quad": "boxcount"})


@unit("C12", "State.pv_zonalized", under=["state.State.pv_zonalized"])
def state(c):
    pkg = package()
    g = G(pkg)
    use_quad_meridional(pkg, g)
    sp = Sp(g)
    s = pkg.state.State(g.grid, Num(T.var("t")), pv_spectral=uarray("q", (g.ns,), "c", owner="pv_spectral"))
    r = s.pv_zonalized
    pv = sp.g_(uarray("q", (g.ns,), "c"))
    prove_same("zonalised PV", r, g.grid.zonalize(pv))
    prove_same("once more", s.pv_zonalized, g.grid.zonalize(pv))


small_integers("C12", "zonalize", "equivalent_latitude")
small_integers("C12", "interp1d_meridional", keep=("lat", "query"))
