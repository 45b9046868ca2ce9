from .common import *

GW = ["grid.Grid.get_filter_window"]
FM = ["grid.Grid.filter_meridional", "grid.Grid.get_filter_window"]
FZ = ["grid.Grid.filter_zonal", "grid.Grid.get_filter_window"]


def odd(n): return eq(n - 2 * floor(n / 2), ONE)


def gridpoints(g, width):
    """the width in gridpoints, rounded, and made odd (a tie is rounded to the even and hence to the odd one above it)"""
    r = floor(width / g.res + const("1/2"))
    return ite(odd(r), r, r + 1)


def window(name, W, k):
    w = lambda i: app("WINDOW:%s:sym" % name, [W, i])
    return w(k) / vsum(W, w)


def some_width(c, g):
    width = T.var("width", pos=True)
    c.require(gt(width, ZERO))
    return width


NAMES = ("hann", "boxcar", "hamming", "blackman")


@unit("C14", "odd rounded width", under=[])
def width_lemma(c):
    """lemma: rounding to the nearest integer and then up to the next odd one gives the same whichever way ties are
    rounded; the result is odd, at least 1, and less than 1.5 gridpoints from the requested width"""
    x = T.var("x", pos=True)
    c.require(gt(x, ZERO))
    up = floor(x + const("1/2"))
    down = -floor(const("1/2") - x)
    mk = lambda r: ite(odd(r), r, r + 1)
    prove("odd", odd(mk(up)))
    prove("positive", ge(mk(up), ONE))
    prove("close above", le(mk(up) - x, const("3/2")))
    prove("close below", gt(mk(up) - x, const("-1/2") - const("1/1000000")))
    if c.decide(odd(up)):
        if c.decide(eq(up - x, const("1/2"))):
            prove("ties", eq(mk(down), mk(up)))


def check_window(nm, got, g, name, width):
    W = gridpoints(g, width)
    prove("%s: odd number of gridpoints" % nm, odd(topoly(got.shape[0])))
    prove_array(nm, got, [W], lambda k: window(name, W, k))


@unit("C14", "get_filter_window", under=GW)
def filter_window(c):
    pkg = package()
    g = G(pkg)
    width = some_width(c, g)
    for name in NAMES:
        check_window(name, g.grid.get_filter_window(name, Num(width)), g, name, width)
    n = T.var("n", "i", pos=True)
    c.require(ge(n, ONE))
    check_window("integer width", g.grid.get_filter_window("hann", Num(n)), g, "hann", n)
    check_window("number", g.grid.get_filter_window("hann", 7), g, "hann", const(7))


@unit("C14", "normalised", under=[])
def normalised(c):
    """lemma: a window divided by its sum sums to 1"""
    n = T.var("n", "i", pos=True)
    S = vsum(n, lambda k: app("w", [k]))
    s = T.var("S", nonzero=True)
    c.require(eq(s, S))
    prove_eq("sum", vsum(n, lambda k: app("w", [k]) / s), ONE)


def mirror(k, n):
    """index of the half-sample symmetric extension (d c b a | a b c d | d c b a)"""
    m = k - 2 * n * floor(k / (2 * n))
    return ite(lt(m, n), m, 2 * n - 1 - m)


def wrap_(k, n): return k - n * floor(k / n)


def conv(W, w, f, j, ext):
    """sum over the window of w(k) * f(j + centre - k)"""
    h = floor(W / 2)
    return vsum(W, lambda k: w(k) * f(ext(j + h - k)))


def filters(which):
    mer = which == "meridional"
    UN = FM if mer else FZ

    @unit("C14", "filter_%s" % which, under=UN)
    def u(c):
        pkg = package()
        g = G(pkg)
        f_ = g.grid.filter_meridional if mer else g.grid.filter_zonal
        size = g.nlat if mer else g.nlon
        ext = (lambda k: mirror(k, g.nlat)) if mer else (lambda k: wrap_(k, g.nlon))
        n = T.var("n", "i", pos=True)
        c.require(ge(n, ONE))
        h = T.var("h", "i")
        c.require(ge(h, ZERO))
        W0 = 2 * h + 1
        win = uarray("win", (W0,), owner="window")
        width = some_width(c, g)
        Wc = gridpoints(g, width)
        for kind in ("f", "i"):
            srt = {"f": "r", "i": "i"}[kind]
            p = uarray("p" + kind, (size,), kind, owner="field")
            f = uarray("f" + kind, (g.nlat, n) if mer else (n, g.nlon), kind, owner="field")
            P = lambda k: app("p" + kind, [k], srt)
            F = lambda j, i: app("f" + kind, [j, i], srt)
            at = (lambda j, i: (j, lambda k: F(k, i))) if mer else (lambda j, i: (i, lambda k: F(j, k)))
            for nm, args, W, w in (("given window", (win,), W0, lambda k: app("win", [k])),
                                   ("hann", ("hann", Num(width)), Wc, lambda k: window("hann", Wc, k)),
                                   ("boxcar", ("boxcar", Num(width)), Wc, lambda k: window("boxcar", Wc, k))):
                prove_array("%s, %s: profile" % (nm, kind), f_(p, *args), [size], lambda j: conv(W, w, P, j, ext))
                prove_array("%s, %s: field" % (nm, kind), f_(f, *args), f._shape, lambda j, i:
                            conv(W, w, at(j, i)[1], at(j, i)[0], ext))
        r = f_(g.field("g"), window="hann", width=Num(width))
        G_ = (lambda j, i: (j, lambda k: app("g", [k, i]))) if mer else (lambda j, i: (i, lambda k: app("g", [j, k])))
        prove_array("keywords", r, [g.nlat, g.nlon], lambda j, i:
                    conv(Wc, lambda k: window("hann", Wc, k), G_(j, i)[1], G_(j, i)[0], ext))

    @unit("C14", "filter_%s rejections" % which, under=UN)
    def rej(c):
        pkg = package()
        g = G(pkg)
        f_ = g.grid.filter_meridional if mer else g.grid.filter_zonal
        size = g.nlat if mer else g.nlon
        n, m = (T.var(k, "i", pos=True) for k in "nm")
        for k in (n, m):
            c.require(ge(k, ONE))
        c.require(bnot(eq(n, size)))
        for nm, args in (("given window", (uarray("win", (const(3),)),)), ("constructed", ("hann", 40))):
            rejected(nm + ": profile", lambda: f_(uarray("p", (n,)), *args))
            rejected(nm + ": field", lambda: f_(uarray("f", (n, m) if mer else (m, n)), *args))
            rejected(nm + ": three dimensions", lambda: f_(uarray("f3", (g.nlat, g.nlon, m)), *args))


filters("meridional")
filters("zonal")


small_integers("C14", "filter_meridional", "filter_zonal")
