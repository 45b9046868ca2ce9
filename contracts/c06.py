from .common import *

GRID = "grid.Grid."
EIG = ["grid.Grid.__init__"]


def both(f):
    """run a contract for the default and for a given truncation"""
    def run(c):
        pkg = package()
        if c.fork():
            g = G(pkg)
        else:
            g = G(pkg, ntrunc="sym")
        f(c, pkg, g, g.grid, Sp(g))
    return run


@unit("C06", "to_spectral, to_grid", under=[GRID + "to_spectral", GRID + "to_grid", GRID + "__init__"])
@both
def transforms(c, pkg, g, gr, sp):
    f, s = g.field("f"), g.spec("s")
    prove_same("to_spectral", gr.to_spectral(f), sp.s(f))
    prove_same("to_grid", gr.to_grid(s), sp.g_(s))


@unit("C06", "laplace_spectral", under=[GRID + "laplace_spectral"] + EIG)
@both
def laplace_spectral(c, pkg, g, gr, sp):
    s = g.spec("s")
    prove_array("-n(n+1)/r^2", gr.laplace_spectral(s), [g.ns], lambda k: -sp.lam(k) * s.get((k,)))


@unit("C06", "laplace", under=[GRID + "laplace", GRID + "to_spectral", GRID + "to_grid"] + EIG)
@both
def laplace(c, pkg, g, gr, sp):
    f = g.field("f")
    F = sp.s(f)
    prove_same("between the transforms", gr.laplace(f), sp.g_(sp.spec(lambda k: -sp.lam(k) * F.get((k,)))))


def inverse(name, c, sp, g, sol, rhs, add, singular0):
    """(Laplacian - add) sol = rhs in every harmonic that is not singular"""
    k = gfresh("k")
    op = lambda k: -sp.lam(k) - add
    prove(name + ": inverse", forall([(k, g.ns)], implies(bnot(eq(op(k), ZERO)), eq(op(k) * sol.get((k,)), rhs.get((k,))))))
    if singular0:
        prove_eq(name + ": n=0", sol.get((ZERO,)), ZERO)


@unit("C06", "solve_poisson_spectral", under=[GRID + "solve_poisson_spectral"] + EIG)
@both
def poisson_spectral(c, pkg, g, gr, sp):
    r = g.spec("rhs")
    sol = gr.solve_poisson_spectral(r)
    prove_array("solution", sol, [g.ns], lambda k: ite(eq(k, ZERO), ZERO, -r.get((k,)) / sp.lam(k)))
    v = gfresh("k")
    prove("inverts the Laplacian", forall([(v, g.ns)], implies(bnot(eq(v, ZERO)), eq(sol.get((v,)) * sp.lam(v), -r.get((v,))))))
    prove_eq("n=0", sol.get((ZERO,)), ZERO)
    sol0 = gr.solve_poisson_spectral(r, 0.)
    prove_same("op_add 0", sol0, sol)


@unit("C06", "solve_poisson_spectral(op_add)", under=[GRID + "solve_poisson_spectral"] + EIG)
@both
def poisson_spectral_add(c, pkg, g, gr, sp):
    r = g.spec("rhs")
    a = T.var("op_add", nonzero=True)
    c.require(bnot(eq(a, ZERO)))
    sol = gr.solve_poisson_spectral(r, op_add=Num(a))
    prove_array("solution", sol, [g.ns], lambda k: -r.get((k,)) / (sp.lam(k) + a))
    prove_eq("n=0", sol.get((ZERO,)) * a, -r.get((ZERO,)))


@unit("C06", "solve_poisson", under=[GRID + "solve_poisson", GRID + "solve_poisson_spectral", GRID + "to_spectral", GRID + "to_grid"] + EIG)
@both
def poisson(c, pkg, g, gr, sp):
    f = g.field("f")
    F = sp.s(f)
    prove_same("between the transforms", gr.solve_poisson(f), sp.g_(sp.spec(
        lambda k: ite(eq(k, ZERO), ZERO, -F.get((k,)) / sp.lam(k)))))
    a = T.var("op_add", nonzero=True)
    c.require(bnot(eq(a, ZERO)))
    want = sp.g_(sp.spec(lambda k: -F.get((k,)) / (sp.lam(k) + a)))
    prove_same("op_add", gr.solve_poisson(f, Num(a)), want)
    prove_same("op_add named", gr.solve_poisson(f, op_add=Num(a)), want)


@unit("C06", "solve_diffusion_spectral", under=[GRID + "solve_diffusion_spectral"] + EIG)
@both
def diffusion_spectral(c, pkg, g, gr, sp):
    f = g.spec("f")
    co, dt = real("coeff"), real("dt")
    spec = lambda o: lambda k: f.get((k,)) / (ONE + dt.p * co.p * sp.lam(k) ** o)
    prove_array("default order", gr.solve_diffusion_spectral(f, co, dt), [g.ns], spec(1))
    for o in (1, 2, 3, 4):
        prove_array("order %d" % o, gr.solve_diffusion_spectral(f, co, dt, order=o), [g.ns], spec(o))
        prove_array("order %d, positional" % o, gr.solve_diffusion_spectral(f, co, dt, o), [g.ns], spec(o))


@unit("C06", "solve_diffusion", under=[GRID + "solve_diffusion", GRID + "solve_diffusion_spectral", GRID + "to_spectral", GRID + "to_grid"] + EIG)
@both
def diffusion(c, pkg, g, gr, sp):
    f = g.field("f")
    F = sp.s(f)
    co, dt = real("coeff"), real("dt")
    spec = lambda o: sp.g_(sp.spec(lambda k: F.get((k,)) / (ONE + dt.p * co.p * sp.lam(k) ** o)))
    prove_same("default order", gr.solve_diffusion(f, co, dt), spec(1))
    for o in (1, 2, 3):
        prove_same("order %d" % o, gr.solve_diffusion(f, co, dt, order=o), spec(o))


@unit("C06", "gradient", under=[GRID + "gradient", GRID + "to_spectral"])
@both
def gradient(c, pkg, g, gr, sp):
    f = g.field("f")
    got, want = gr.gradient(f), sp.grad(f)
    prove_is("two components", len(got) == 2)
    prove_same("zonal", got[0], want[0])
    prove_same("meridional", got[1], want[1])


@unit("C06", "vorticity and divergence", under=[GRID + k for k in ("vorticity", "vorticity_spectral", "divergence",
      "divergence_spectral", "vorticity_divergence", "vorticity_divergence_spectral", "to_grid")])
@both
def vort_div(c, pkg, g, gr, sp):
    u, v = g.field("u"), g.field("v")
    vo, di = sp.vd(u, v)
    a = gr.vorticity_divergence_spectral(u, v)
    prove_is("two fields", len(a) == 2)
    prove_same("vorticity_divergence_spectral vorticity", a[0], vo)
    prove_same("vorticity_divergence_spectral divergence", a[1], di)
    prove_same("vorticity_spectral", gr.vorticity_spectral(u, v), vo)
    prove_same("divergence_spectral", gr.divergence_spectral(u, v), di)
    b = gr.vorticity_divergence(u, v)
    prove_is("two gridded fields", len(b) == 2)
    prove_same("vorticity_divergence vorticity", b[0], sp.g_(vo))
    prove_same("vorticity_divergence divergence", b[1], sp.g_(di))
    prove_same("vorticity", gr.vorticity(u, v), sp.g_(vo))
    prove_same("divergence", gr.divergence(u, v), sp.g_(di))


@unit("C06", "wind", under=[GRID + "wind", GRID + "to_spectral"])
@both
def wind(c, pkg, g, gr, sp):
    vg, dg, vs, ds = g.field("vo"), g.field("div"), g.spec("vos"), g.spec("divs")
    for nm, a, b, A, B_ in [("gridded", vg, dg, sp.s(vg), sp.s(dg)), ("spectral", vs, ds, vs, ds),
                            ("gridded vorticity", vg, ds, sp.s(vg), ds), ("gridded divergence", vs, dg, vs, sp.s(dg))]:
        got, want = gr.wind(a, b), sp.uv(A, B_)
        prove_is(nm + ": two components", len(got) == 2)
        prove_same(nm + ": zonal", got[0], want[0])
        prove_same(nm + ": meridional", got[1], want[1])


small_integers("C06", "to_spectral, to_grid", "laplace", "solve_poisson", "solve_diffusion", "gradient", "vorticity and divergence", "wind")
