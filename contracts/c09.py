from .common import *

M = "model.BarotropicModel."
UNDER = [M + k for k in ("__init__", "_pv_tendency_spectral", "_apply_diffusion")] + ["model._to_seconds",
        "state.State.__init__", "state.State.pv_flux_spectral", "grid.Grid.solve_diffusion_spectral",
        "grid.Grid.divergence_spectral", "grid.Grid.wind", "grid.Grid.to_spectral", "grid.Grid.to_grid"]


class Setup:
    """a model with arbitrary forcing, diffusion and background; two arbitrary states"""

    def __init__(self, c, times, forced=None, bg=None, order=None, default=False):
        self.pkg = package()
        self.g = g = G(self.pkg) if c.fork() else G(self.pkg, ntrunc="sym")
        self.sp = Sp(g)
        self.forced = c.fork() if forced is None else forced
        has_bg = c.fork() if bg is None else bg
        self.seen = []
        self.rhs = None
        if self.forced:
            self.force = uarray("FORCING", (g.nlat, g.nlon), owner="forcing")

            def rhs(state):
                self.seen.append(state)
                return self.force
            self.rhs = rhs
        self.bg = g.field("bg") if has_bg else None
        self.order, self.coeff = 2, const(10) ** 15
        kw = {}
        if not default:
            self.order = order or 2
            self.coeff = T.var("coeff")
            c.require(ge(self.coeff, ZERO))
            kw = dict(diffusion_order=self.order, diffusion_coeff=Num(self.coeff))
        self.model = self.pkg.model.BarotropicModel(self.rhs, diffusion_bg=self.bg, **kw)
        self.time, self.step = clock(c, times)

    def state(self, name, t):
        S = self.g.spec(name)
        s = self.pkg.state.State(self.g.grid, t, pv_spectral=S)
        return s, S

    def tendency(self, S):
        sp, g = self.sp, self.g
        nz = SymArray((g.ns,), "c", lambda i: ZERO)
        F = sp.s(SymArray((g.nlat, g.nlon), "f", lambda i: g.f(i[0])))
        Z = SymArray((g.ns,), "c", lambda i: S.get(i) - F.get(i))
        q = sp.g_(S)
        u, v = sp.uv(Z, nz)
        qu = SymArray((g.nlat, g.nlon), "f", lambda i: q.get(i) * u.get(i))
        qv = SymArray((g.nlat, g.nlon), "f", lambda i: q.get(i) * v.get(i))
        div = sp.vd(qu, qv)[1]
        R = sp.s(self.force) if self.forced else None
        return SymArray((g.ns,), "c", lambda i: -div.get(i) + (R.get(i) if R is not None else ZERO))

    def diffuse(self, x, dt):
        sp = self.sp
        d = lambda k: ONE + dt * self.coeff * sp.lam(k) ** self.order
        if self.bg is None:
            return sp.spec(lambda k: x(k) / d(k))
        b = sp.s(self.bg)
        return sp.spec(lambda k: b.get((k,)) + (x(k) - b.get((k,))) / d(k))

    def rhs_seen(self, name, state):
        if self.forced:
            prove_is(name + ": forcing evaluated for the current state", self.seen and all(s is state for s in self.seen))

    def is_state(self, name, s, spec, t):
        prove_is(name + ": a State", type(s).__name__ == "State")
        prove_is(name + ": grid", s.grid is self.g.grid)
        prove_time(name + ": time", s.time, t)
        prove_same(name + ": pv_spectral", s.pv_spectral, spec)


def unmodified(name, s, time, S):
    prove_is(name + ": time unmodified", s.time is time)
    prove_same(name + ": PV unmodified", s.pv_spectral, S)


def euler_unit(times, order=None, **kw):
    def f(c):
        m = Setup(c, times, order=order, **kw)
        t, dt = m.time("t"), m.step("dt")
        s, S = m.state("S", t)
        S0 = S.snapshot()
        new = m.model.euler(s, dt)
        tend = m.tendency(S0)
        h = seconds(dt)
        want = m.diffuse(lambda k: S0.get((k,)) + h * tend.get((k,)), h)
        m.is_state("new", new, want, t + dt)
        m.rhs_seen("euler", s)
        unmodified("state", s, t, S0)
    return f


def leap_unit(times, order=None, **kw):
    def f(c):
        m = Setup(c, times, order=order, **kw)
        t, dt = m.time("t"), m.step("dt")
        a, A = m.state("A", t)
        b, B_ = m.state("B", t + dt)
        tb = b.time
        A0, B0 = A.snapshot(), B_.snapshot()
        if c.fork():
            al = Num(T.var("alpha"))
            now, new = m.model.leapfrog(a, b, filter_parameter=al)
        else:
            al = const(1) / 5
            now, new = m.model.leapfrog(a, b)
        al = topoly(al)
        tend = m.tendency(B0)
        h = seconds(dt)
        want = m.diffuse(lambda k: A0.get((k,)) + h * 2 * tend.get((k,)), h * 2)
        m.is_state("new", new, want, t + dt + dt)
        filt = m.sp.spec(lambda k: B0.get((k,)) + al * (A0.get((k,)) - B0.get((k,)) * 2 + want.get((k,))))
        m.is_state("now", now, filt, t + dt)
        m.rhs_seen("leapfrog", b)
        unmodified("old state", a, t, A0)
        unmodified("current state", b, tb, B0)
    return f


for _o in (1, 2, 3, 4):
    unit("C09", "euler, order %d" % _o, under=[M + "euler"] + UNDER)(euler_unit("number", _o))
    unit("C09", "leapfrog, order %d" % _o, under=[M + "leapfrog"] + UNDER)(leap_unit("number", _o))
unit("C09", "euler, datetime", under=[M + "euler"] + UNDER)(euler_unit("datetime", 2))
unit("C09", "leapfrog, datetime", under=[M + "leapfrog"] + UNDER)(leap_unit("datetime", 2))
unit("C09", "euler, default diffusion", under=[M + "euler"] + UNDER)(euler_unit("number", default=True))
unit("C09", "leapfrog, default diffusion", under=[M + "leapfrog"] + UNDER)(leap_unit("number", default=True))


@unit("C09", "the global mean of unforced steps", under=[M + "euler", M + "leapfrog"] + UNDER)
def mean(c):
    """the n = 0 harmonic, which carries the global mean, is unchanged without forcing and background"""
    m = Setup(c, "number", forced=False, bg=False, order=2)
    t, dt = m.time("t"), m.step("dt")
    a, A = m.state("A", t)
    b, B_ = m.state("B", t + dt)
    c.require(eq(B_.get((ZERO,)), A.get((ZERO,))))
    A = A.snapshot()
    prove_eq("euler", m.model.euler(a, dt).pv_spectral.get((ZERO,)), A.get((ZERO,)))
    now, new = m.model.leapfrog(a, b)
    prove_eq("leapfrog, new", new.pv_spectral.get((ZERO,)), A.get((ZERO,)))
    prove_eq("leapfrog, filtered", now.pv_spectral.get((ZERO,)), A.get((ZERO,)))


@unit("C09", "repeated steps of one model", under=[M + "euler", M + "leapfrog"] + UNDER)
def repeated(c):
    """the result of a step does not depend on what the model did before"""
    m = Setup(c, "number", order=2)
    t, dt = m.time("t"), m.step("dt")
    a, A = m.state("A", t)
    b, B_ = m.state("B", t + dt)
    A0 = A.snapshot()
    m.model.euler(b, m.step("dt2"))
    m.model.leapfrog(a, b)
    h = seconds(dt)
    tend = m.tendency(A0)
    want = m.diffuse(lambda k: A0.get((k,)) + h * tend.get((k,)), h)
    m.is_state("euler after other steps", m.model.euler(a, dt), want, t + dt)
    m.is_state("euler again", m.model.euler(a, dt), want, t + dt)
