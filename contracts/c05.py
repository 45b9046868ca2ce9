from .common import *

DM = ["grid.Grid.derivative_meridional"]


def poly_field(g, deg, two_d):
    co = (lambda k, i: app("c%d" % k, [i])) if two_d else (lambda k, i: T.var("c%d" % k))
    val = lambda j, i: sum((co(k, i) * g.phi(j) ** k for k in range(deg + 1)), ZERO)
    der = lambda j, i: sum((co(k, i) * k * (g.phi(j) ** (k - 1) if k > 1 else ONE) for k in range(1, deg + 1)), ZERO)
    return val, der


def check(order, deg, args, n_min):
    @unit("C05", "order %s, 2-dimensional" % order, under=DM)
    def two(c):
        pkg = package()
        g = G(pkg, n_min=n_min)
        w = T.var("W", "i", pos=True)
        val, der = poly_field(g, deg, True)
        f = owned(SymArray((g.nlat, w), float_kind(), lambda i: val(i[0], i[1])), "f")
        prove_array("exact at every latitude", g.grid.derivative_meridional(f, **args), [g.nlat, w], der)

    @unit("C05", "order %s, 1-dimensional" % order, under=DM)
    def one(c):
        pkg = package()
        g = G(pkg, n_min=n_min)
        val, der = poly_field(g, deg, False)
        f = owned(SymArray((g.nlat,), float_kind(), lambda i: val(i[0], ZERO)), "f")
        d = g.grid.derivative_meridional(f, **args)
        prove_array("exact in the interior", d, [g.nlat], lambda j: der(j, ZERO),
                    hyp=lambda j: band(gt(j, ZERO), lt(j, g.N)))
        prove_eq("North Pole", d.get((ZERO,)), ZERO)
        prove_eq("South Pole", d.get((g.N,)), ZERO)

    @unit("C05", "order %s, linear and columnwise" % order, under=DM)
    def linear(c):
        pkg = package()
        g = G(pkg, n_min=n_min)
        w = T.var("W", "i", pos=True)
        a, b = T.var("a"), T.var("b")
        f1, f2 = uarray("f1", (g.nlat, w), owner="f1"), uarray("f2", (g.nlat, w), owner="f2")
        f3 = SymArray((g.nlat, w), "f", lambda i: a * f1.get(i) + b * f2.get(i))
        D1, D2, D3 = (g.grid.derivative_meridional(f, **args) for f in (f1, f2, f3))
        prove_array("2-dimensional", D3, [g.nlat, w], lambda j, i: a * D1.get((j, i)) + b * D2.get((j, i)))
        i0 = T.var("i0", "i")
        c.require(ge(i0, ZERO))
        c.require(lt(i0, w))
        mix = SymArray((g.nlat, w), "f", lambda i: ite(eq(i[1], i0), f1.get(i), f2.get(i)))
        Dm = g.grid.derivative_meridional(mix, **args)
        j = gfresh("j")
        prove("only this column", forall([(j, g.nlat)], eq(Dm.get((j, i0)), D1.get((j, i0)))))
        p1, p2 = g.profile("p1"), g.profile("p2")
        p3 = SymArray((g.nlat,), "f", lambda i: a * p1.get(i) + b * p2.get(i))
        E1, E2, E3 = (g.grid.derivative_meridional(f, **args) for f in (p1, p2, p3))
        prove_array("1-dimensional", E3, [g.nlat], lambda k: a * E1.get((k,)) + b * E2.get((k,)))
        # a profile and a field of this profile agree away from the poles
        f4 = SymArray((g.nlat, w), "f", lambda i: p1.get((i[0],)))
        D4 = g.grid.derivative_meridional(f4, **args)
        prove_array("profiles and fields agree", D4, [g.nlat, w], lambda k, i: E1.get((k,)),
                    hyp=lambda k, i: band(gt(k, ZERO), lt(k, g.N)))


check("2", 2, dict(order=2), 2)
check("4", 4, dict(order=4), 4)
check("default", 4, dict(), 4)


@unit("C05", "rejections", under=DM)
def rejections(c):
    pkg = package()
    g = G(pkg)
    f, p = g.field("f"), g.profile("p")
    for o in (0, 1, 3, 5, 6, -4):
        rejected("order %d" % o, lambda: g.grid.derivative_meridional(f, order=o))
        rejected("order %d, profile" % o, lambda: g.grid.derivative_meridional(p, order=o))
    if c.decide(lt(g.N, const(4))):
        rejected("too few latitudes", lambda: g.grid.derivative_meridional(f))
        rejected("too few latitudes, profile", lambda: g.grid.derivative_meridional(p, order=4))


small_integers("C05", "order ")
