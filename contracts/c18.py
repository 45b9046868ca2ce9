import inspect
from .common import *
from .c15 import look_at, choose

DG = "diagnostics."
FFT = D.N.NP.fft
T.register_linear("CWT")


def atoms_of(x, name, out=None, seen=None):
    """the applications of the functional name in a term"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, T.Poly):
        for m in x.t:
            for a, e in m:
                atoms_of(a, name, out, seen)
    elif isinstance(x, T.Atom):
        if x.id not in seen:
            seen.add(x.id)
            if x.kind == "fn" and x.data[0] == name:
                out.append(x)
            else:
                atoms_of(x.data, name, out, seen)
    elif isinstance(x, tuple):
        for y in x:
            atoms_of(y, name, out, seen)
    return out


def argmax_facts(c, p):
    """the contract of argmax for its occurrences in p: a valid index, at which the value is not exceeded"""
    for a in atoms_of(p, "ARGMAX"):
        r = T.atom_poly(a)
        (v,), (n,), body = T.open_body(a, 0)
        at = subst(body, {T.is_var(v): r})
        c.require(band(ge(r, ZERO), lt(r, n)))
        c.require(forall([(v, n)], le(body, at)))


def row_spectrum(f, w, j, k):
    return FFT.rfft(SymArray((w,), "f", lambda i: topoly(f(j, i[0])))).get((topoly(k),))


def restricted(f, w, lo, hi):
    """f(j, i) with only the zonal wavenumbers lo..hi kept"""
    def g(j, i):
        m = floor(topoly(w) / 2) + 1
        s = SymArray((m,), "c", lambda k: ite(band(ge(k[0], topoly(lo)), le(k[0], topoly(hi))),
                                              row_spectrum(f, w, j, k[0]), ZERO))
        return FFT.irfft(s, n=Num(w)).get((topoly(i),))
    return g


class Smoothing:
    """abstract meridional and zonal filters (C14): one functional of the field, the window and the width each"""

    def __init__(self, g):
        self.calls = []
        for name in ("filter_meridional", "filter_zonal"):
            self.install(type(g.grid), name)

    def install(self, cls, name):
        sig = inspect.signature(getattr(cls, name))

        def stub(grid, *a, **k):
            b = sig.bind(grid, *a, **k)
            b.apply_defaults()
            f, window, width = list(b.arguments.values())[1:4]
            m = len(self.calls)
            r = SymArray(f._shape, "f", lambda i: app("SMOOTHED%d" % m, list(i)))
            self.calls.append((name, f.snapshot(), window, width))
            return r
        setattr(cls, name, stub)

    def check(self, name, got, what, f, window, width, then=None):
        """the last recorded call is this filter with these arguments; the field filtered is f"""
        c = ctx()
        if not self.calls:
            c.violated(name, "not smoothed")
            raise PathEnd()
        which, h, w, n = self.calls.pop()
        prove_is(name + ": filter", which == what and w == window, "%s %r" % (which, w))
        prove_eq(name + ": width", n, width)
        return h


def number_range(c, w):
    """a range of wavenumbers resolved by w longitudes"""
    lo, hi = T.var("kmin", "i"), T.var("kmax", "i")
    c.require(ge(lo, ZERO))
    c.require(le(lo, floor(w / 2)))
    c.require(le(lo, hi))
    return lo, hi


def row(c, n, name="row"):
    j = T.var(name, "i")
    c.require(ge(j, ZERO))
    c.require(lt(j, n))
    return j


UF = [DG + "dominant_wavenumber_fourier"]


def dominant(name, c, got, f, n, w, lo, hi):
    """got(j) is a wavenumber of the range with the largest power"""
    prove_shape(name, got, (n,))
    prove_is(name + ": numbers", got.kind == "f", got.kind)
    j = row(c, n)
    k = topoly(got.get((j,)))
    argmax_facts(c, k)
    prove(name + ": in the range", band(ge(k, lo), le(k, hi), le(k, floor(topoly(w) / 2))))
    v = T.var("other", "i")
    c.require(ge(v, ZERO))
    c.require(le(lo + v, hi))
    c.require(le(lo + v, floor(topoly(w) / 2)))
    look_at(c, v)
    m = lambda x: T.app("abs", [x]) if False else topoly(D.N.NP.abs(Num(x)))
    prove(name + ": largest power", le(m(row_spectrum(f, w, j, lo + v)) ** 2, m(row_spectrum(f, w, j, k)) ** 2))


@unit("C18", "dominant_wavenumber_fourier", under=UF)
def fourier(c):
    pkg = package()
    g = G(pkg)
    sm = Smoothing(g)
    f_ = pkg.diagnostics.dominant_wavenumber_fourier
    how = choose(c, ["any width", "default range", "default smoothing", "given smoothing"])
    if how == "any width":
        n, w = T.var("n", "i", pos=True), T.var("w", "i", pos=True)
        c.require(ge(n, ONE))
        c.require(ge(w, const(2)))
        f = uarray("f", (n, w), owner="field")
        lo, hi = number_range(c, w)
        rng = choose(c, ["tuple", "list"])
        r = (Num(lo), Num(hi)) if rng == "tuple" else [Num(lo), Num(hi)]
        got = f_(f, g.grid, smooth=None, wavenumber_range=r)
        dominant("dominant wavenumber", c, got, lambda j, i: app("f", [topoly(j), topoly(i)]), n, w, lo, hi)
        prove_is("not smoothed", not sm.calls, "%r" % (sm.calls,))
        return
    f = g.field("f", owner="field")
    F = lambda j, i: app("f", [topoly(j), topoly(i)])
    if how == "default range":
        got = f_(f, g.grid, smooth=None)
        dominant("range 1..20", c, got, F, g.nlat, g.nlon, const(1), const(20))
        return
    if how == "default smoothing":
        r, (win, width) = f_(f, g.grid), ("boxcar", const(10))
    else:
        width = T.var("width", pos=True)
        c.require(gt(width, ZERO))
        win = "hann"
        r = f_(f, g.grid, ("hann", Num(width)), (1, 20))
    h = sm.check("smoothing", r, "filter_meridional", None, win, width)
    j = T.var("sj", "i")
    prove_is("smoothed once", not sm.calls, "%r" % (sm.calls,))
    prove_array("the smoothed wavenumber", r, [g.nlat], lambda j: app("SMOOTHED0", [topoly(j)]))
    dominant("before smoothing", c, h, F, g.nlat, g.nlon, const(1), const(20))


UE = [DG + "envelope_hilbert", DG + "_restrict_fourier_zonal"]


def analytic(x, w):
    """modulus of the analytic signal of x(j, i) along i"""
    def g(j, i):
        a = SymArray((w,), "f", lambda k: topoly(x(j, k[0])))
        return D.N.NP.abs(D.hilbert(a)).get((topoly(i),))
    return g


@unit("C18", "envelope_hilbert", under=UE)
def envelope(c):
    pkg = package()
    n, w = T.var("n", "i", pos=True), T.var("w", "i", pos=True)
    c.require(ge(n, ONE))
    c.require(ge(w, const(2)))
    f = uarray("f", (n, w), owner="field")
    F = lambda j, i: app("f", [topoly(j), topoly(i)])
    if c.fork():
        lo, hi = number_range(c, w)
        got = pkg.diagnostics.envelope_hilbert(f, (Num(lo), Num(hi)))
    else:
        lo, hi = const(2), const(10)
        got = pkg.diagnostics.envelope_hilbert(f)
    prove_array("envelope", got, [n, w], analytic(restricted(F, w, lo, hi), w))


@unit("C18", "State.v_envelope_hilbert and falwa_filtered", under=UE + ["state.State.v_envelope_hilbert",
                                                                       "state.State.falwa_filtered"])
def shortcuts(c):
    pkg = package()
    g = G(pkg)
    State = pkg.state.State
    v, l = g.field("v", owner="v"), g.field("l", owner="l")

    class S(State):
        def __init__(self):
            self.__dict__["grid"] = g.grid
        v = property(lambda self: None)
    S.v = property(lambda self: v)
    S.falwa = property(lambda self: l)
    S.__name__ = "State"
    V = lambda j, i: app("v", [topoly(j), topoly(i)])
    prove_array("envelope of v", S().v_envelope_hilbert, [g.nlat, g.nlon], analytic(restricted(V, g.nlon, const(2), const(10)),
                                                                                  g.nlon))
    seen = []

    def dom(*a, **k):
        b = inspect.signature(orig[0]).bind(*a, **k)
        b.apply_defaults()
        seen.append(("dominant", b.arguments))
        return uarray("kdom", (g.nlat,), owner="kdom")

    def filt(*a, **k):
        b = inspect.signature(orig[1]).bind(*a, **k)
        seen.append(("filter", b.arguments))
        return uarray("filtered", (g.nlat, g.nlon))
    orig = [pkg.diagnostics.dominant_wavenumber_fourier, pkg.diagnostics.filter_by_wavenumber]
    replace(pkg, "diagnostics.dominant_wavenumber_fourier", dom)
    replace(pkg, "diagnostics.filter_by_wavenumber", filt)
    r = S().falwa_filtered
    prove_is("one wavenumber and one filter", [s for s, a in seen] == ["dominant", "filter"], "%r" % (seen,))
    if [s for s, a in seen] != ["dominant", "filter"]:
        return
    d, f = seen[0][1], seen[1][1]
    prove_array("wavenumber of v", d["field"], [g.nlat, g.nlon], V)
    prove_is("on the grid", d["grid"] is g.grid, "%r" % (d["grid"],))
    prove_is("default smoothing", tuple(d["smooth"]) == ("boxcar", 10), "%r" % (d["smooth"],))
    prove_is("default range", tuple(d["wavenumber_range"]) == (1, 20), "%r" % (d["wavenumber_range"],))
    prove_array("filtered FALWA", f["field"], [g.nlat, g.nlon], lambda j, i: app("l", [topoly(j), topoly(i)]))
    prove_array("doubled wavenumber", f["wavenumber"], [g.nlat], lambda j: 2 * app("kdom", [topoly(j)]))
    prove_array("result", r, [g.nlat, g.nlon], lambda j, i: app("filtered", [topoly(j), topoly(i)]))


# -- wavelet -------------------------------------------------------------------------------------------------
class Pywt:
    """pywt: the continuous wavelet transform as a linear functional of each line for every scale"""

    def __init__(self):
        self.calls = []

    class ContinuousWavelet:
        def __init__(self, name, dtype=None):
            self.name = name

    def cwt(self, data, scales, wavelet, sampling_period=1.0, method="conv", axis=-1, **kw):
        name = getattr(wavelet, "name", wavelet)
        if method not in ("conv", "fft") or kw or not isinstance(sampling_period, (int, float)) or sampling_period != 1:
            raise Unsupported("cwt options")
        a, s = NP._arr(data), NP._arr(scales)
        ax = D.N.axis_norm(axis, a.ndim)[0]
        f, sc = a.reader(), s.reader()
        self.calls.append((name, s.snapshot()))

        def g(i):
            v = gfresh("cw")
            x = i[1:]
            return T.lin("CWT", (sc((i[0],)), x[ax]), [(v, a._shape[ax])], f(x[:ax] + (v,) + x[ax + 1:]), "c")
        return SymArray((s._shape[0],) + tuple(a._shape), "c", g), self.scale2frequency(wavelet, s)

    def scale2frequency(self, wavelet, scale, precision=8):
        return D.N.ew1(lambda e: T.app("S2F", [e]), scale, "f")
    central_frequency = None


UW = [DG + "dominant_wavenumber_wavelet", DG + "_restrict_fourier_zonal"]


@unit("C18", "dominant_wavenumber_wavelet", under=UW)
def wavelet(c):
    py = Pywt()
    pkg = package(extra={"pywt": py})
    g = G(pkg)
    sm = Smoothing(g)
    f = g.field("f", owner="field")
    F = lambda j, i: app("f", [topoly(j), topoly(i)])
    f_ = pkg.diagnostics.dominant_wavenumber_wavelet
    how = choose(c, ["no smoothing", "default smoothing", "given smoothing"])
    if how == "no smoothing":
        h = f_(f, g.grid, smooth=None)
        prove_is("not smoothed", not sm.calls, "%r" % (sm.calls,))
    else:
        if how == "default smoothing":
            win, wlon, wlat = "hann", const(40), const(10)
            r = f_(f, g.grid)
        else:
            win, wlon, wlat = "boxcar", T.var("wlon", pos=True), T.var("wlat", pos=True)
            r = f_(f, g.grid, ("boxcar", Num(wlon), Num(wlat)))
        prove_is("smoothed twice", len(sm.calls) == 2, "%r" % (sm.calls,))
        prove_array("the smoothed wavenumber", r, [g.nlat, g.nlon], lambda j, i: app("SMOOTHED1", [topoly(j), topoly(i)]))
        # the two filters act on different axes: either order
        first = sm.calls[0][0]
        a = [("filter_meridional", wlat), ("filter_zonal", wlon)]
        if first == "filter_zonal":
            a = a[::-1]
        h1 = sm.check("second smoothing", r, a[1][0], None, win, a[1][1])
        prove_array("input of the second smoothing", h1, [g.nlat, g.nlon],
                    lambda j, i: app("SMOOTHED0", [topoly(j), topoly(i)]))
        h = sm.check("first smoothing", r, a[0][0], None, win, a[0][1])
    prove_shape("wavenumber", h, (g.nlat, g.nlon))
    j, i = row(c, g.nlat), row(c, g.nlon, "column")
    prove_is("one transform", len(py.calls) == 1 and py.calls[0][0] == "cmor1.0-1.0", "%r" % (py.calls,))
    if len(py.calls) != 1:
        return
    scales = py.calls[0][1]
    ns = const(120)
    prove_array("scales", scales, [ns], lambda s: 3 * topoly(2 ** Num(6 * topoly(s) / 119)))
    k = topoly(h.get((j, i)))
    x = restricted(F, g.nlon, ZERO, const(20))

    def coef(s):
        v = gfresh("cw")
        at = ite(lt(v, g.nlon), v, ite(lt(v, 2 * g.nlon), v - g.nlon, v - 2 * g.nlon))
        return T.lin("CWT", (topoly(scales.get((topoly(s),))), g.nlon + i), [(v, 3 * g.nlon)], topoly(x(j, at)), "c")
    ms = atoms_of(k, "ARGMAX")
    if len(ms) != 1:
        raise Unsupported("not one maximum")
    m = T.atom_poly(ms[0])
    prove("a scale", band(ge(m, ZERO), lt(m, ns)))
    prove_eq("wavenumber of the scale", k, T.app("S2F", [topoly(scales.get((m,)))]) * g.nlon)
    # the quantity maximised, as a function of the coefficient of the periodic row at each scale
    s = T.var("other", "i")
    c.require(ge(s, ZERO))
    c.require(lt(s, ns))
    (v,), (n,), body = T.open_body(ms[0], 0)
    prove_eq("all scales", n, ns)
    value = []
    for at in (s, m):
        b = subst(body, {T.is_var(v): at})
        C = app("COEFFICIENT", [at], "c")
        cs = atoms_of(b, "CWT")
        for a in cs:
            prove_eq("coefficient", T.atom_poly(a), coef(at))
        value.append((T.replace_atoms(b, {a: C for a in cs}), D.N.NP.abs(Num(C)).p))
    (b0, p0), (b1, p1) = value
    c.require(band(le(b0, b1), ge(p0, ZERO), ge(p1, ZERO)))
    prove("largest power", le(p0, p1))


# -- filter ---------------------------------------------------------------------------------------------------
UB = [DG + "filter_by_wavenumber"]


def hann_smoothed(f, w, W, j, i):
    """normalised Hann window of W gridpoints, centred at column i of the periodic row j"""
    win = lambda k: app("WINDOW:hann:sym", [W, k])
    h = (W - 1) / 2
    return vsum(W, lambda k: win(k) / vsum(W, win) * f(j, wrap(i + h - k, w)))


def wrap(k, n): return k - n * floor(k / n)


for _d in ("1-d", "2-d"):
    @unit("C18", "filter_by_wavenumber, %s wavenumber" % _d, under=UB, oblig_seconds=150)
    def filt(c, d=_d):
        pkg = package()
        n, w = T.var("n", "i", pos=True), T.var("w", "i", pos=True)
        c.require(ge(n, ONE))
        c.require(ge(w, const(2)))
        kk = choose(c, ["f", "i"])
        f = uarray("f", (n, w), owner="field")
        F = lambda j, i: app("f", [topoly(j), topoly(i)])
        if d == "1-d":
            k = uarray("k", (n,), kk, owner="wavenumber")
            K = lambda j, i: app("k", [topoly(j)], {"f": "r", "i": "i"}[kk])
        else:
            k = uarray("k", (n, w), kk, owner="wavenumber")
            K = lambda j, i: app("k", [topoly(j), topoly(i)], {"f": "r", "i": "i"}[kk])
        got = pkg.diagnostics.filter_by_wavenumber(f, k)
        prove_shape("filtered", got, (n, w))
        j, i = row(c, n), row(c, w, "column")
        x = K(j, i)
        x = ite(lt(x, ONE), ONE, ite(gt(x, w / 2), w / 2, x))
        W = 2 * floor(w / x) + 1
        prove_eq("Hann filter of the point's own width", got.get((j, i)), hann_smoothed(F, w, W, j, i))


small_integers("C18", "dominant_wavenumber", "envelope_hilbert", "filter_by_wavenumber")
