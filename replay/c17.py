from common import *
from fractions import Fraction


def deriv(g, f, order):
    """meridional finite difference, written out point by point; 0 at the poles (profiles)"""
    n = g.nlat
    h = -np.pi / (n - 1)
    out = np.zeros(n)
    for j in range(1, n - 1):
        if order == 2:
            out[j] = (f[j + 1] - f[j - 1]) / (2 * h)
        elif j == 1:
            out[j] = (-3 * f[0] - 10 * f[1] + 18 * f[2] - 6 * f[3] + f[4]) / (12 * h)
        elif j == n - 2:
            out[j] = (3 * f[-1] + 10 * f[-2] - 18 * f[-3] + 6 * f[-4] - f[-5]) / (12 * h)
        else:
            out[j] = (f[j - 2] - 8 * f[j - 1] + 8 * f[j + 1] - f[j + 2]) / (12 * h)
    return out


class Statelike:
    def __init__(self, grid, u, pv):
        self.grid, self.u, self.pv = grid, u, pv


def check_ks(what, call, g, u, pv, order, min_u, single=False):
    n = g.nlat
    phi = np.pi / 2 - np.pi / (n - 1) * np.arange(n)
    cos = np.cos(phi)
    if pv is None:
        rv = np.zeros(n)
        rv[1:-1] = -deriv(g, u * cos, order)[1:-1] / g.rsphere / cos[1:-1]
        pv = 2 * g.omega * np.sin(phi) + rv
    d = deriv(g, pv, order)
    grad = cos**2 * g.rsphere * d
    scale = np.abs(pv).max() * g.rsphere * (n - 1)
    small = np.abs(u) <= min_u
    near = np.abs(np.abs(u) - min_u) <= (1e-2 if single else 1e-12) * max(min_u, 1e-300)
    ks2 = call(kind="squared")
    expect(ks2.shape == (n,) and ks2.dtype.kind == "f", what + ": shape", got=ks2.shape)
    expect(not np.isnan(ks2).any(), what + ": NaN", got=ks2)
    for j in range(n):
        w = what + ": Ks^2 at row %d" % j
        if near[j]:
            continue
        # derivative values which are 0 but for roundoff have no determined sign
        tiny = abs(grad[j]) <= (1e-5 if single else 1e-11) * scale
        if small[j]:
            if grad[j] == 0 and j in (0, n - 1):
                expect(ks2[j] == 0, w + " (no gradient)", got=ks2[j])
            elif not tiny:
                expect(np.isinf(ks2[j]) and np.sign(ks2[j]) == np.sign(grad[j]), w + " (small u)", got=ks2[j])
            else:
                expect(np.isinf(ks2[j]) or ks2[j] == 0, w + " (small u)", got=ks2[j])
        else:
            expect(abs(ks2[j] - grad[j] / u[j]) <= (1e-5 if single else 1e-10) * (scale / abs(u[j])), w, got=ks2[j], want=grad[j] / u[j])
    tol = 1e-5 if single else 1e-12
    root = np.sqrt(np.abs(ks2))
    for how in ({}, {"kind": "complex"}):
        ks = call(**how)
        expect(ks.shape == (n,) and ks.dtype.kind == "c", what + ": complex variant")
        same(what + ": Re", ks.real, np.where(ks2 >= 0, root, 0.), tol)
        same(what + ": Im", np.abs(ks.imag), np.where(ks2 >= 0, 0., root), tol)
        expect((ks.imag >= 0).all(), what + ": sign of the imaginary part")
    ks = call(kind="real")
    expect(ks.dtype.kind == "f", what + ": real variant")
    same(what + ": Re - Im", ks, np.where(ks2 >= 0, root, -root), tol)


def same(what, a, b, tol=0.):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, what + ": shape", got=a.shape, want=b.shape)
    ok = (a == b) | (np.abs(np.where(np.isfinite(a), a, 1e300) - np.where(np.isfinite(b), b, -1e300)) <= tol * (1 + np.abs(b)))
    expect(ok.all(), what, got=a[~ok][:3], want=b[~ok][:3])


@oracle("stationary wavenumber", weight=2)
def ks_(c):
    g = make_grid(c, ntrunc=False)
    n = g.nlat
    order = c.pick("order", [None, 2, 4])
    kw = {} if order is None else {"order": order}
    order = 4 if order is None else order
    if order == 4 and n < 5:
        return
    min_u = .001
    if c.pick("min_u", [0, 1]):
        min_u = kw["min_u"] = c.pick("threshold", [0., 1e-4, .5, 5.])
    U = c.pick("amplitude", [30., 1., 1e-3])
    prof = c.pick("profile", ["jet", "random", "zeros", "easterly", "steps", "integer"])
    phi = np.pi / 2 - np.pi / (n - 1) * np.arange(n)
    if prof == "jet":
        u = U * np.exp(-((phi - .6) / .3)**2) * np.cos(phi)
    elif prof == "easterly":
        u = -U * np.cos(phi)
    elif prof == "steps":
        u = np.where(np.arange(n) % 3 == 0, 0., U)
    elif prof == "integer":
        u = c.np.integers(-20, 21, size=n)
    else:
        u = U * c.np.normal(size=n)
        if prof == "zeros":
            u[c.np.integers(0, 2, size=n) == 0] = 0.
    f = bt.diagnostics.stationary_wavenumber

    def field(p):
        x = c.np.normal(size=(n, g.nlon))
        return p[:, None] + x - x.mean(axis=1)[:, None]
    kind = c.pick("input", ["u", "u field", "profiles", "fields", "u and q field", "u field and q"])
    uu = field(u) if "u field" in kind or kind == "fields" else u
    c.guard("u", uu)
    up = uu.mean(axis=1) if uu.ndim == 2 else uu
    if kind in ("u", "u field"):
        arg = uu if c.pick("as", ["array", "list"]) == "array" else uu.tolist()
        check_ks(kind, lambda **k: f(arg, g, **kw, **k), g, up, None, order, min_u)
        bad = c.pick("bad kind", ["foo", "", None, "Complex"])
        raises(ValueError, lambda: f(arg, g, kind=bad), "kind %r" % (bad,))
        return
    q = 2 * g.omega * np.sin(phi)
    if c.pick("PV", ["planetary", "any", "flat"]) == "any":
        q = q + abs(g.omega) * c.np.normal(size=n)
    elif c.pick("flat", [0, 1]):
        q = np.full(n, g.omega)
    qq = field(q) if "q field" in kind or kind == "fields" else q
    c.guard("q", qq)
    qp = qq.mean(axis=1) if qq.ndim == 2 else qq
    check_ks(kind, lambda **k: f(Statelike(g, uu, qq), **kw, **k), g, up, qp, order, min_u)


@oracle("State shortcuts")
def shortcuts(c):
    g = make_grid(c, c.pick("N", [6, 8, 9, 12]))
    R = Ref(g)
    q = R.fcor2(g) + .5 * abs(g.omega) * smooth(c, g)
    s = bt.State(g, 0., pv=q)
    same("stationary_wavenumber", s.stationary_wavenumber, bt.diagnostics.stationary_wavenumber(s))
    check_ks("State", lambda **k: bt.diagnostics.stationary_wavenumber(s, **k), g, s.u.mean(axis=1), s.pv.mean(axis=1), 4, .001, True)
    k = c.pick("k", [0., 1., 3.5, 5])
    a, b = s.extract_ks_waveguides(k), bt.diagnostics.extract_ks_waveguides(s, k)
    w = reference(g, s.stationary_wavenumber.real - s.stationary_wavenumber.imag, k)
    check_guides("State", g, a, w)
    check_guides("diagnostics on a State", g, b, w)


def reference(g, ks, k):
    """the boundaries from north to south as intervals: list of (lowest possible, highest possible) latitudes"""
    n = g.nlat
    lat = [90. - 180. * j / (n - 1) for j in range(n)]
    out = []
    if ks[0] >= k:
        out.append((lat[0], lat[0]))
    inside = ks[0] >= k
    for j in range(n - 1):
        a, b = ks[j], ks[j + 1]
        if (b < k) if inside else (b > k):
            if np.isinf(a) and np.isinf(b):
                out.append((lat[j + 1], lat[j]))
            elif np.isinf(a):
                out.append((lat[j + 1], lat[j + 1]))
            elif np.isinf(b):
                out.append((lat[j], lat[j]))
            else:
                t = (Fraction(k) - Fraction(a)) / (Fraction(b) - Fraction(a))
                x = lat[j] + float(t) * (lat[j + 1] - lat[j])
                out.append((x, x))
            inside = not inside
    if inside:
        out.append((lat[-1], lat[-1]))
    return list(zip(out[::2], out[1::2]))


def check_guides(what, g, got, want):
    expect(len(got) == len(want), what + ": number of waveguides", got=got, want=want)
    for m, ((a, b), (wa, wb)) in enumerate(zip(got, want)):
        for x, (lo, hi), e in ((a, wa, "start"), (b, wb, "end")):
            expect(not np.isnan(x), what + ": NaN")
            expect(lo - 1e-7 <= x <= hi + 1e-7, what + ": %s of waveguide %d" % (e, m), got=x, want=(lo, hi))


@oracle("waveguides", weight=4)
def guides(c):
    g = make_grid(c, ntrunc=False)
    n = g.nlat
    kind = c.pick("Ks", ["normal", "integers", "infinite", "infinite integers", "blocks", "small int"])
    if kind == "blocks":
        ks = np.repeat(c.np.normal(size=n), 3)[:n] * 3
    elif kind == "small int":
        ks = small_ints(c, n)
    elif "integers" in kind:
        ks = c.np.integers(-3, 4, size=n).astype(float)
    else:
        ks = 3 * c.np.normal(size=n)
    if "infinite" in kind:
        m = c.np.uniform(size=n)
        ks[m < .2] = np.inf
        ks[m > .85] = -np.inf
    fin = ks[np.isfinite(ks)]
    k = c.pick("k", [0., 1., 2, -1., 1.5])
    if len(fin) and c.pick("k from Ks", [0, 0, 1]):
        k = float(fin[c.int("which", 0, len(fin) - 1)])
    want = reference(g, ks.astype(float), k)
    f = bt.diagnostics.extract_ks_waveguides
    c.guard("ks", ks)
    check_guides("real Ks", g, f(ks, k, g), want)
    check_guides("real Ks, keyword", g, f(ks, k, grid=g), want)
    z = np.where(ks >= 0, ks, 0.) + 0j
    z.imag = np.where(ks >= 0, 0., -ks.astype(float))
    c.guard("complex ks", z)
    check_guides("complex Ks", g, f(z, k, g), want)
    kc = complex(k, 0.) if k >= 0 else complex(0., -k)
    check_guides("complex k", g, f(z, kc, g), want)
    check_guides("complex k, real Ks", g, f(ks, kc, g), want)
