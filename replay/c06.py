from common import *

T32 = 2e-5      # spherical harmonics are computed in single precision


def setup(c):
    g = make_grid(c)
    # truncation known from the way the grid was made
    return g, Ref(g)


def f32(c, g, name):
    return c.guard(name, smooth(c, g))


def spec(c, R, name):
    n = R.lam.size
    s = (c.np.normal(size=n) + 1j * c.np.normal(size=n)).astype(np.complex64)
    return c.guard(name, s)


@oracle("spectral operators", weight=2)
def spectral(c):
    g, R = setup(c)
    s = spec(c, R, "spec")
    r2 = g.rsphere**2
    sc = lambda x: np.abs(x).max()
    close("laplace_spectral", g.laplace_spectral(s), -R.lam * s, T32)
    want = np.zeros_like(s)
    want[1:] = -s[1:] / R.lam[1:]
    close("solve_poisson_spectral", g.solve_poisson_spectral(s), want, T32)
    a = c.pick("op_add", [1., .3, 12.5]) / r2
    close("solve_poisson_spectral(op_add)", g.solve_poisson_spectral(s, a), -s / (R.lam + a), T32)
    close("solve_poisson_spectral(op_add=0)", g.solve_poisson_spectral(s, op_add=0), want, T32)
    o = c.pick("order", [1, 2, 3] if g.rsphere == 1 else [1, 2])      # single precision range
    dt = c.pick("dt", [1., 600.])
    co = c.pick("x", [.1, 1., 5.]) / dt / R.lam.max()**o
    close("solve_diffusion_spectral", g.solve_diffusion_spectral(s, co, dt, order=o), s / (1 + dt * co * R.lam**o), T32)
    close("solve_diffusion_spectral(default)", g.solve_diffusion_spectral(s, co, dt), s / (1 + dt * co * R.lam), T32)


@oracle("gridded operators", weight=2)
def gridded(c):
    g, R = setup(c)
    f, h = smooth(c, g, name="f"), smooth(c, g, name="h")
    F = R.s(f)
    same("to_spectral", g.to_spectral(f), F)
    same("to_grid", g.to_grid(F), R.g(F))
    close("laplace", g.laplace(f), R.g(-R.lam * F), 1e-4)
    lam1 = np.where(R.lam == 0, 1, R.lam)
    close("solve_poisson", g.solve_poisson(f), R.g(np.where(R.lam == 0, 0, -F / lam1)), 1e-4)
    a = 3. / g.rsphere**2
    close("solve_poisson(op_add)", g.solve_poisson(f, op_add=a), R.g(-F / (R.lam + a)), 1e-4)
    o = c.pick("order", [1, 2, 3] if g.rsphere == 1 else [1, 2])
    dt = 20.
    co = 2. / dt / R.lam.max()**o
    close("solve_diffusion", g.solve_diffusion(f, co, dt, order=o), R.g(F / (1 + dt * co * R.lam**o)), 1e-4)
    close("solve_diffusion(default)", g.solve_diffusion(f, co, dt), R.g(F / (1 + dt * co * R.lam)), 1e-4)
    gx, gy = g.gradient(f)
    wx, wy = R.sp.getgrad(F)
    close("gradient zonal", gx, wx, 1e-4)
    close("gradient meridional", gy, wy, 1e-4)
    vo, di = R.sp.getvrtdivspec(f, h, R.nt)
    k = np.abs(vo).max() + np.abs(di).max()
    kg = np.abs(R.g(vo)).max() + np.abs(R.g(di)).max()
    a, b = g.vorticity_divergence_spectral(f, h)
    close("vorticity_divergence_spectral[0]", a, vo, 1e-4, scale=k)
    close("vorticity_divergence_spectral[1]", b, di, 1e-4, scale=k)
    close("vorticity_spectral", g.vorticity_spectral(f, h), vo, 1e-4, scale=k)
    close("divergence_spectral", g.divergence_spectral(f, h), di, 1e-4, scale=k)
    a, b = g.vorticity_divergence(f, h)
    close("vorticity_divergence[0]", a, R.g(vo), 1e-4, scale=kg)
    close("vorticity_divergence[1]", b, R.g(di), 1e-4, scale=kg)
    close("vorticity", g.vorticity(f, h), R.g(vo), 1e-4, scale=kg)
    close("divergence", g.divergence(f, h), R.g(di), 1e-4, scale=kg)
    H = R.s(h)
    u, v = R.sp.getuv(F, H)
    k = np.abs(u).max() + np.abs(v).max()
    for nm, x, y in (("grid", f, h), ("spectral", F, H), ("mixed", f, H), ("mixed2", F, h)):
        a, b = g.wind(c.guard("vo", x), c.guard("div", y))
        close("wind u " + nm, a, u, 1e-4, scale=k)
        close("wind v " + nm, b, v, 1e-4, scale=k)


@oracle("known solutions")
def known(c):
    """solid body rotation and single harmonics, independent of spharm"""
    g = make_grid(c, c.pick("N", [12, 18, 24]), ntrunc=False)
    r = g.rsphere
    phi, lam = np.meshgrid(np.pi / 2 - np.arange(g.nlat) * np.pi / (g.nlat - 1), np.arange(g.nlon) * 2 * np.pi / g.nlon, indexing="ij")
    u = 10 * np.cos(phi)
    close("vorticity of solid body rotation", g.vorticity(u, np.zeros_like(u)), 20 / r * np.sin(phi), 1e-3)
    f = np.cos(phi)**2 * np.cos(2 * lam)
    close("laplace of a harmonic", g.laplace(f), -6 / r**2 * f, 1e-3)
    gx, gy = g.gradient(np.sin(phi))
    close("gradient", gy, np.cos(phi) / r, 1e-3)
    gx, gy = g.gradient(np.cos(phi) * np.sin(lam))
    close("gradient zonal", gx, np.cos(lam) / r, 1e-3)


@oracle("integer fields")
def integer_fields(c):
    g = make_grid(c)
    f, h = c.guard("f", small_ints(c, g.shape, "f type")), c.guard("h", small_ints(c, g.shape, "h type"))
    F, H = f.astype(float), h.astype(float)
    for nm, n in (("vorticity", 2), ("divergence", 2), ("vorticity_divergence", 2), ("vorticity_divergence_spectral", 2),
                  ("vorticity_spectral", 2), ("divergence_spectral", 2), ("wind", 2), ("gradient", 1), ("laplace", 1), ("solve_poisson", 1),
                  ("to_spectral", 1)):
        m = getattr(g, nm)
        a, b = m(*(f, h)[:n]), m(*(F, H)[:n])
        for k, (x, y) in enumerate(zip(a, b) if isinstance(a, tuple) else [(a, b)]):
            # the zonal mean of a wind has round-off vorticity only: compare on the scale of both results
            close("%s[%d]" % (nm, k), x, y, 1e-4, scale=max(np.abs(z).max() for z in (b if isinstance(b, tuple) else (b,))))
