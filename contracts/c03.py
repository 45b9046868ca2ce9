from .common import *

QM = ["grid.Grid.quad_meridional"]


def sinp(x): return app("sin", [x])
def cosp(x): return app("cos", [x])


def segment(r, xu, xl, yu, yl, zu, zl):
    """exact integral over one latitude segment (xu north of xl) of r*cos(x)*y(x) where z(x) >= 0,
    y and z linear between the endpoints"""
    a = (yu - yl) / (xu - xl)
    b = yl - a * xl
    P = lambda x: (a * x + b) * sinp(x) + a * cosp(x)        # antiderivative of (a x + b) cos(x)
    root_n = xu + (xl - xu) * zu / (zu - zl)                  # z(root) = 0
    root_s = xl + (xu - xl) * zl / (zl - zu)
    pu, pl = ge(zu, ZERO), ge(zl, ZERO)
    lo = ite(pl, xl, root_s)
    hi = ite(pu, xu, root_n)
    return ite(bor(pu, pl), r * (P(hi) - P(lo)), ZERO)


def seg_spec(g, y, z):
    return lambda i: vsum(g.N, lambda j: segment(g.r, g.phi(j), g.phi(j + 1), y(j, i), y(j + 1, i), z(j, i), z(j + 1, i)))


def sector(c, g, name="W"):
    w = T.var(name, "i", pos=True)
    c.require(ge(w, ONE))
    c.require(le(w, g.nlon))
    return w


@unit("C03", "the roots of the specification", under=[])
def roots(c):
    """lemma: both root formulas used by the specification are where the linear z is zero"""
    xu, xl, zu, zl = (T.var(k) for k in ("xu", "xl", "zu", "zl"))
    c.require(lt(xl, xu))
    d = T.var("d", nonzero=True)
    c.require(eq(zu, zl + d))
    for nm, root in (("north", xu + (xl - xu) * zu / d), ("south", xl + (xu - xl) * zl / (-d))):
        w = T.var("w" + nm)
        c.require(eq(w * (xu - xl), root - xl))               # relative position between the ends
        prove(nm, eq(zl + (zu - zl) * w, ZERO))


@unit("C03", "quad_meridional(sptrapz, domain)", under=QM)
def sptrapz(c):
    pkg = package()
    g = G(pkg)
    use_area(pkg, g)
    w = sector(c, g)
    y = uarray("y", (g.nlat, w), owner="y")
    z = uarray("z", (g.nlat, w), owner="z")
    spec = seg_spec(g, lambda j, i: y.get((j, i)), lambda j, i: z.get((j, i)))
    prove_array("default method", g.grid.quad_meridional(y, z), [w], spec)
    prove_array("named method", g.grid.quad_meridional(y, z=z, method="sptrapz"), [w], spec)


@unit("C03", "quad_meridional(sptrapz, everywhere)", under=QM)
def sptrapz_all(c):
    pkg = package()
    g = G(pkg)
    w = sector(c, g)
    y = uarray("y", (g.nlat, w), owner="y")
    spec = seg_spec(g, lambda j, i: y.get((j, i)), lambda j, i: ONE)
    prove_array("default method", g.grid.quad_meridional(y), [w], spec)
    prove_array("full globe", g.grid.quad_meridional(g.field("f")), [g.nlon],
                seg_spec(g, lambda j, i: app("f", [j, i]), lambda j, i: ONE))


@unit("C03", "quad_meridional(boxcount)", under=QM)
def boxcount(c):
    pkg = package()
    g = G(pkg)
    use_area(pkg, g)
    w = sector(c, g)
    y = uarray("y", (g.nlat, w), owner="y")
    z = uarray("z", (g.nlat, w), owner="z")
    k = g.r * g.dlam
    prove_array("domain", g.grid.quad_meridional(y, z, "boxcount"), [w], lambda i:
                vsum(g.nlat, lambda j: ite(ge(z.get((j, i)), ZERO), area_term(g, j) * y.get((j, i)), ZERO)) / k)
    prove_array("everywhere", g.grid.quad_meridional(y, method="boxcount"), [w], lambda i:
                vsum(g.nlat, lambda j: area_term(g, j) * y.get((j, i))) / k)


@unit("C03", "quad_meridional(rejections)", under=QM)
def rejections(c):
    pkg = package()
    g = G(pkg)
    use_area(pkg, g)
    n, m = T.var("n", "i", pos=True), T.var("m", "i", pos=True)
    c.require(bnot(eq(n, g.nlat)))
    for meth in ("sptrapz", "boxcount"):
        rejected("latitude count, " + meth, lambda: g.grid.quad_meridional(uarray("y", (n, m)), method=meth))
        rejected("latitude count with domain, " + meth,
                 lambda: g.grid.quad_meridional(uarray("y", (n, m)), uarray("z", (n, m)), method=meth))
        rejected("quad, latitude count, " + meth, lambda: g.grid.quad(uarray("y", (n, m)), method=meth))
        rejected("profile, " + meth, lambda: g.grid.quad_meridional(uarray("p", (g.nlat,)), method=meth))
    f = g.field("f")
    rejected("unknown method", lambda: g.grid.quad_meridional(f, method="trapz"))
    rejected("unknown method, domain", lambda: g.grid.quad_meridional(f, f, "simpson"))
    rejected("quad, unknown method", lambda: g.grid.quad(f, f, "simpson"))


@unit("C03", "Grid.quad", under=["grid.Grid.quad"])
def quad(c):
    """surface integral, against the contract of quad_meridional"""
    pkg = package()
    g = G(pkg)
    w = sector(c, g)
    y = uarray("y", (g.nlat, w), owner="y")
    z = uarray("z", (g.nlat, w), owner="z")
    seen = []

    def qm(self, yy, zz=None, method="sptrapz", **kw):
        if "z" in kw:
            zz = kw["z"]
        seen.append((self, yy, zz, method))
        return SymArray((w,), "f", lambda i: app("QM%d" % len(seen), [i[0]]))
    replace(pkg, "grid.Grid.quad_meridional", lambda self, y, z=None, method="sptrapz": qm(self, y, z, method))
    k = g.r * g.dlam
    for q, (call, zz, meth) in enumerate([(lambda: g.grid.quad(y), None, "sptrapz"), (lambda: g.grid.quad(y, z), z, "sptrapz"),
                                          (lambda: g.grid.quad(y, z=z, method="boxcount"), z, "boxcount"),
                                          (lambda: g.grid.quad(y, None, "boxcount"), None, "boxcount")]):
        del seen[:]
        r = call()
        prove_is("one meridional quadrature", len(seen) == 1)
        prove_eq("value", r, k * vsum(w, lambda i: app("QM1", [i])))
        s = seen[0]
        prove_is("arguments", s[0] is g.grid and s[1] is y and (s[2] is zz) and s[3] == meth)


small_integers("C03", "quad_meridional(sptrapz", "quad_meridional(boxcount", "Grid.quad")
