from .common import *

FA = ["diagnostics.falwa"]
FW = ["diagnostics.fawa"]


def use_zonalize(pkg, g, log):
    """callee contract of zonalize (C12): contour values and their equivalent latitudes, as many as determined by
    `levels` and the scheme"""
    def zonalize(self, field, levels=None, interpolate=True, quad="sptrapz"):
        if self is not g.grid:
            raise Unsupported("zonalize on another grid")
        if E.truth(interpolate):
            raise Unsupported("interpolated zonalisation")
        n = T.var("n%d" % len(log), "i", pos=True)
        ctx().require(ge(n, ONE))
        log.append((field, levels, quad, n))
        k = len(log) - 1
        # (contours of the type of the given ones)
        kind = "n" if getattr(levels, "kind", None) == "n" else "f"
        return (SymArray((n,), kind, lambda i: app("ZQ%d" % k, [i[0]])), SymArray((n,), "f", lambda i: app("ZY%d" % k, [i[0]])))
    return replace(pkg, "grid.Grid.zonalize", zonalize)


def spec(g, F, k, method, qmax, qmin):
    """contours and latitudes, and FALWA of each contour"""
    n = T.var("n%d" % k, "i", pos=True)
    Q, Y = (lambda i: app("ZQ%d" % k, [i])), (lambda i: app("ZY%d" % k, [i]))
    if method == "boxcount":
        mid = lambda i: (g.lat(i) + g.lat(i + 1)) / 2
        q = lambda i: interp_spec(n, Y, Q, (qmax, qmin), mid(i))
        m, y = g.N, mid
    else:
        m, q, y = n, Q, Y

    def lwa(l, i):
        z1 = lambda j: F(j, i) - q(l)
        z2 = lambda j: g.lat(j) - y(l)
        d = lambda z: qm_term(g, method, lambda j: F(j, i) - q(l), z)
        return (d(z1) - d(z2)) / app("cos", [y(l) * PI / 180])
    return m, y, lwa


def check(nm, method, kw):
    @unit("C13", "falwa and fawa(%s)" % nm, under=FA + FW)
    def u(c):
        pkg = package()
        g = G(pkg)
        use_quad_meridional(pkg, g)
        log = []
        use_zonalize(pkg, g, log)
        F = lambda j, i: app("f", [j, i])
        f = g.field("f")
        qmax, qmin = topoly(NP.max(f)), topoly(NP.min(f))
        lv = uarray("lv", (T.var("nlv", "i", pos=True),), owner="levels")
        cosz = lambda y: c.require(forall([], TRUE))
        for what, extra in (("", {}), ("levels: ", {"levels": lv}), ("number of levels: ", {"levels": Num(T.var("nl", "i", pos=True))})):
            a = dict(kw, **extra)

            def args(name):
                s = log[-1]
                prove_is(name + "contours requested", (s[1] is extra.get("levels")) and s[2] == method)
                prove_same(name + "of the PV", s[0], f)
            r, yy = pkg.diagnostics.falwa(f, g.grid, interpolate=False, **a)
            args(what)
            m, y, lwa = spec(g, F, len(log) - 1, method, qmax, qmin)
            prove_array(what + "latitudes", yy, [m], y)
            prove_array(what + "FALWA", r, [m, g.nlon], lwa)
            r = pkg.diagnostics.falwa(f, grid=g.grid, **a)
            args(what + "interpolated: ")
            m, y, lwa = spec(g, F, len(log) - 1, method, qmax, qmin)
            prove_array(what + "FALWA on the grid", r, [g.nlat, g.nlon], lambda j, i:
                        interp_spec(m, y, lambda l: lwa(l, i), (0, 0), g.lat(j)))
            r, yy = pkg.diagnostics.fawa(f, g.grid, interpolate=False, **a)
            args(what + "zonal mean: ")
            m, y, lwa = spec(g, F, len(log) - 1, method, qmax, qmin)
            zm = lambda l: vsum(g.nlon, lambda i: lwa(l, i)) / g.nlon
            prove_array(what + "FAWA latitudes", yy, [m], y)
            prove_array(what + "FAWA", r, [m], zm)
            r = pkg.diagnostics.fawa(f, grid=g.grid, **a)
            args(what + "zonal mean, interpolated: ")
            m, y, lwa = spec(g, F, len(log) - 1, method, qmax, qmin)
            zm = lambda l: vsum(g.nlon, lambda i: lwa(l, i)) / g.nlon
            prove_array(what + "FAWA on the grid", r, [g.nlat], lambda j: interp_spec(m, y, zm, (0, 0), g.lat(j)))


check("sptrapz", "sptrapz", {"quad": "sptrapz"})
check("default", "sptrapz", {})
check("boxcount", "boxcount", {"quad": "boxcount"})


@unit("C13", "poles", under=FA + FW)
def poles(c):
    """the interpolation onto the grid gets the pole values zero"""
    pkg = package()
    g = G(pkg)
    use_quad_meridional(pkg, g)
    use_zonalize(pkg, g, [])
    for nm, f in (("FALWA", pkg.diagnostics.falwa), ("FAWA", pkg.diagnostics.fawa)):
        for q in ("sptrapz", "boxcount"):
            seen = c.ex.shared.setdefault("interp1d", [])
            del seen[:]
            f(g.field("f"), g.grid, quad=q)
            x, y = seen[-1].x, seen[-1].y
            m = x._shape[0]
            c.require(ge(m, const(2)))
            i = gfresh("i")
            at = (lambda k: y.get((k, i))) if y.ndim == 2 else (lambda k: y.get((k,)))
            what = "%s, %s: " % (nm, q)
            prove_is(what + "along the latitude", seen[-1].axis == 0)
            prove_eq(what + "North Pole node", x.get((ZERO,)), const(90))
            prove_eq(what + "South Pole node", x.get((m - 1,)), const(-90))
            prove(what + "zero at the North Pole", forall([(i, g.nlon)], eq(at(ZERO), ZERO)))
            prove(what + "zero at the South Pole", forall([(i, g.nlon)], eq(at(m - 1), ZERO)))


@unit("C13", "State.falwa and State.fawa", under=["state.State.falwa", "state.State.fawa"] + FA + FW)
def state(c):
    pkg = package()
    g = G(pkg)
    use_quad_meridional(pkg, g)
    log = []

    def zonalize(self, field, levels=None, interpolate=True, quad="sptrapz"):
        log.append((field, levels, interpolate, quad))
        n = T.var("n", "i", pos=True)
        ctx().require(ge(n, ONE))
        return (SymArray((n,), "f", lambda i: app("ZQ", [i[0]])), SymArray((n,), "f", lambda i: app("ZY", [i[0]])))
    replace(pkg, "grid.Grid.zonalize", zonalize)
    sp = Sp(g)
    q = uarray("q", (g.ns,), "c", owner="pv_spectral")
    pv = sp.g_(q)
    want = pkg.diagnostics.falwa(pv, g.grid)
    wantz = pkg.diagnostics.fawa(pv, g.grid)
    for order in (("falwa", "fawa"), ("fawa", "falwa"), ("falwa", "falwa"), ("fawa", "fawa")):
        s = pkg.state.State(g.grid, Num(T.var("t")), pv_spectral=q)
        del log[:]
        for a in order:
            r = getattr(s, a)
            prove_same("%s after %s" % (a, order[0]), r, want if a == "falwa" else wantz)
        for e in log:
            prove_same("contours of its own PV", e[0], pv)
            prove_is("default options", e[1] is None and e[2] is False and e[3] == "sptrapz")
    prove_same("diagnostic of a state", pkg.diagnostics.falwa(pkg.state.State(g.grid, Num(T.var("t")), pv_spectral=q)), want)
    prove_same("FAWA of a state", pkg.diagnostics.fawa(pkg.state.State(g.grid, Num(T.var("t")), pv_spectral=q)), wantz)


small_integers("C13", "falwa and fawa", "poles")
