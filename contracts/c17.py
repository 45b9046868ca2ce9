from .common import *
import inspect
from .c15 import look_at, choose
from vfy.ext import Ext

DG = "diagnostics."
UK = [DG + "stationary_wavenumber", DG + "_get_grid_vars"]


def inf_sign(d):
    """infinite with the sign of d, 0 for 0"""
    return ite(gt(d, ZERO), T.INF, ite(lt(d, ZERO), -T.INF, ZERO))


class Derivative:
    """abstract meridional derivative: a functional of the order and the profile, equal for profiles which are equal at every
    latitude (the values of the real one are decided in C05)"""

    def __init__(self, g):
        self.g, self.seen = g, []
        real = type(g.grid).derivative_meridional
        sig = inspect.signature(real)

        def stub(grid, *a, **k):
            b = sig.bind(grid, *a, **k)
            b.apply_defaults()
            f, order = list(b.arguments.values())[1:3]
            if not (E._isarr(f) and f.ndim == 1):
                raise Unsupported("derivative of %r" % (f,))
            return self.of(f, order)
        type(g.grid).derivative_meridional = stub

    def of(self, f, order):
        c, n = ctx(), self.g.nlat
        if isinstance(order, Num):
            order = order.p
        prove_shape("profile", f, (n,))
        j = T.var("dj", "i")
        for m, (o, h) in enumerate(self.seen):
            if o == order and c.entails(bor(lt(j, ZERO), ge(j, n), eq(topoly(f.get((j,))), topoly(h.get((j,)))))):
                break
        else:
            m = len(self.seen)
            self.seen.append((order, f))
        return SymArray((n,), "f", lambda i, m=m: app("DMERID%d" % m, [topoly(i[0])]))


class Ks:
    """expected stationary wavenumber from profiles u(j), pv(j)"""

    def __init__(self, g, u, pv, order, min_u):
        self.g, self.u, self.pv, self.order, self.min_u = g, u, pv, order, min_u
        self.d = None

    def squared(self, j):
        g = self.g
        if self.d is None:
            a = SymArray((g.nlat,), "f", lambda i: self.pv(i[0]))
            kw = {} if self.order is None else {"order": self.order}
            self.d = g.grid.derivative_meridional(a, **kw)
        d = self.d.get((j,))
        x = topoly(g.r) * D.N.NP.cos(Num(g.phi(j))).p ** 2 * d
        u = self.u(j)
        return ite(le(T.absr(u), topoly(self.min_u)), inf_sign(x), x / u)


def wind_pv(g, u, order):
    """PV profile of a zonal-mean wind profile: planetary minus the meridional derivative of u cos(phi)"""
    cos = lambda j: D.N.NP.cos(Num(g.phi(j))).p
    a = SymArray((g.nlat,), "f", lambda i: u(i[0]) * cos(i[0]))
    kw = {} if order is None else {"order": order}
    d = g.grid.derivative_meridional(a, **kw)
    return lambda j: 2 * topoly(g.omega) * D.N.NP.sin(Num(g.phi(j))).p - d.get((j,)) / topoly(g.r) / cos(j)


def sq_kinds(name, pkg, call, ks, n):
    """the three kinds of output of call"""
    j = T.var("row", "i")
    c = ctx()
    c.require(ge(j, ZERO))
    c.require(lt(j, n))
    want = ks.squared(j)
    a = call(kind="squared")
    prove_shape(name + "squared", a, (n,))
    prove_eq(name + "Ks^2", a.get((j,)), want)
    re = ite(ge(want, ZERO), app("sqrt", [want]), ZERO)
    im = ite(ge(want, ZERO), ZERO, app("sqrt", [-want]))
    for how in ({"kind": "complex"}, {}):
        a = call(**how)
        prove_shape(name + "complex", a, (n,))
        prove_is(name + "complex values", a.kind == "c", a.kind)
        prove_eq(name + "Re Ks", D.N.cre(a.get((j,))), re)
        prove_eq(name + "Im Ks", D.N.cim(a.get((j,))), im)
    a = call(kind="real")
    prove_shape(name + "real", a, (n,))
    prove_is(name + "real values", a.kind == "f", a.kind)
    prove_eq(name + "Re Ks - Im Ks", a.get((j,)), re - im)


def zmean(g, f):
    return lambda j: vsum(g.nlon, lambda i: f.get((topoly(j), i))) / g.nlon


class Statelike:
    def __init__(self, grid, u, pv):
        self.grid, self.u, self.pv = grid, u, pv


for _w in ("wind profile", "wind field", "State", "profiles", "wind field and PV profile", "wind profile and PV field"):
    @unit("C17", "stationary_wavenumber, " + _w, under=UK + ["state.State.stationary_wavenumber"], max_paths=3000, seconds=400,
          oblig_seconds=40)
    def ks_units(c, what=_w):
        pkg = package()
        g = G(pkg)
        c.require(ge(g.nlat, const(5)))
        Derivative(g)
        order = choose(c, [None, 2, 4])
        kw = {} if order is None else {"order": order}
        order = 4 if order is None else order
        min_u = Num(const("1/1000"))
        if c.fork():
            min_u = kw["min_u"] = Num(T.var("min_u"))
            c.require(ge(min_u.p, ZERO))
        f = pkg.diagnostics.stationary_wavenumber
        if what in ("wind profile", "wind field"):
            u = g.field("u") if what == "wind field" else uarray("u", (g.nlat,))
            up = zmean(g, u) if what == "wind field" else (lambda j: u.get((topoly(j),)))
            ks = Ks(g, up, wind_pv(g, up, order), order, min_u)
            sq_kinds("", pkg, lambda **k: f(u, g.grid, **kw, **k), ks, g.nlat)
        else:
            def make(name, field):
                if field:
                    f = g.field(name)
                    return f, zmean(g, f)
                f = uarray(name, (g.nlat,))
                return f, lambda j: f.get((topoly(j),))
            u, up = make("u", what in ("State", "wind field and PV profile"))
            q, qp = make("q", what in ("State", "wind profile and PV field"))
            s = Statelike(g.grid, u, q)
            ks = Ks(g, up, qp, order, min_u)
            sq_kinds("", pkg, lambda **k: f(s, **kw, **k), ks, g.nlat)


@unit("C17", "stationary_wavenumber of a State and rejections", under=UK + ["state.State.stationary_wavenumber"],
      max_paths=2000, oblig_seconds=40)
def ks_state(c):
    pkg = package()
    g = G(pkg)
    c.require(ge(g.nlat, const(5)))
    u, q = g.field("u"), g.field("q")
    State = pkg.state.State

    class S(State):
        def __init__(self):
            self.__dict__["grid"] = g.grid
        pv = property(lambda self: q)
        u = property(lambda self: u)
    S.u = property(lambda self: u)
    S.__name__ = "State"
    s = S()
    j = T.var("row", "i")
    c.require(ge(j, ZERO))
    c.require(lt(j, g.nlat))
    ks = Ks(g, zmean(g, u), zmean(g, q), None, Num(const("1/1000")))
    want = ks.squared(j)
    a = s.stationary_wavenumber
    prove_eq("Re Ks", D.N.cre(a.get((j,))), ite(ge(want, ZERO), app("sqrt", [want]), ZERO))
    prove_eq("Im Ks", D.N.cim(a.get((j,))), ite(ge(want, ZERO), ZERO, app("sqrt", [-want])))
    f = pkg.diagnostics.stationary_wavenumber
    for kind in ("foo", "", None):
        prove_raises("kind %r" % (kind,), ValueError, lambda: f(uarray("w", (g.nlat,)), g.grid, kind=kind))


# -- waveguides ------------------------------------------------------------------------------------------------
D.S.APP_AXIOMS["KSSIGN"] = lambda za, r: [r >= -1, r <= 1]
D.S.APP_AXIOMS["REINF"] = D.S.APP_AXIOMS["IMINF"] = lambda za, r: [r >= 0, r <= 1]


class CExt:
    """complex Ks: real or imaginary and not negative, possibly infinite"""
    _is_ext = True

    def __init__(self, j):
        self.j = j
        j = topoly(j)
        im = T.pred("IMAGINARY", [j])
        p, s = app("ABSKS", [j]), app("REINF", [j], "i")
        self.real = Ext(ite(im, ZERO, p), ite(im, ZERO, s))
        self.imag = Ext(ite(im, p, ZERO), ite(im, s, ZERO))

    def __subst__(self, mp, memo=None):
        return CExt(subst(topoly(self.j), mp))


class WaveList(list):
    """the list of waveguides closed before iteration i, and those appended since"""

    def __init__(self, i):
        super().__init__()
        self.i, self.appended = i, []

    def append(self, x):
        self.appended.append(x)

    def extend(self, o):
        if type(o) is not list:
            raise Unsupported("list extension")
        self.appended.extend(o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = WaveList(self.i)
        r.appended = list(self.appended)
        r.extend(o)
        return r

    def copy(self):
        return self + []

    def _no(self, *a, **k):
        raise Unsupported("operation on the list of waveguides")
    insert = pop = remove = clear = sort = reverse = __getitem__ = __setitem__ = __iter__ = __contains__ = __len__ = _no


class Scan:
    """Ghost functions of the scan from north to south: active(j): Ks at latitude j is inside a waveguide, start(j): its
    northern boundary; closed(j): the waveguides which ended north of latitude j. They are defined by the jumps of active:
    a waveguide starts between j and j+1 when Ks exceeds k at j+1 but not at j, ends when Ks falls below k at j+1"""

    def __init__(self, c, g, k, variant):
        self.c, self.g, self.k, self.variant = c, g, k, variant
        self.lists = {}
        self.done = None
        c.ex.loop_handlers.append(self.handler)

    def ks(self, j):
        j = topoly(j)
        if self.variant == "complex":
            e = CExt(j)
            return e.real - e.imag
        if self.variant == "small integer":
            for inf in (T.INF, -T.INF):
                self.c.require(T.ne(app("KS", [j]), inf))
            return Ext(app("KS", [j]), ZERO)
        return Ext(app("KS", [j]), app("KSSIGN", [j], "i"))

    def active(self, j):
        return T.pred("ACTIVE", [topoly(j)])

    def start(self, j):
        return app("START", [topoly(j)])

    def lat(self, j):
        return topoly(self.g.lat(topoly(j)))

    def fin(self, j):
        return eq(self.ks(j).s, ZERO)

    def crossing(self, j):
        a, b = self.ks(j), self.ks(topoly(j) + 1)
        return self.lat(j) + (self.lat(topoly(j) + 1) - self.lat(j)) * (self.k - a.p) / (b.p - a.p)

    def check_boundary(self, name, j, got):
        """boundary between latitudes j and j+1"""
        c = self.c
        if isinstance(got, Ext):
            c.prove(name + ": not NaN", bnot(got.nan))
            c.prove(name + ": finite", eq(got.s, ZERO))
            got = got.p
        elif isinstance(got, (Num, int, float)):
            got = topoly(got)
        else:
            c.violated(name, "not a number: %r" % (got,))
            raise PathEnd()
        f, f1 = self.fin(j), self.fin(j + 1)
        if c.decide(f):
            if c.decide(f1):
                prove_eq(name + ": linear crossing", got, self.crossing(j))
            else:
                prove_eq(name + ": finite neighbour in the north", got, self.lat(j))
        elif c.decide(f1):
            prove_eq(name + ": finite neighbour in the south", got, self.lat(j + 1))
        else:
            prove(name + ": between the latitudes", band(le(self.lat(j + 1), got), le(got, self.lat(j))))
        return got

    def define(self, j):
        """definition of active at j+1"""
        s = self.ks(j + 1)
        k = Num(self.k)
        up, stay = tob(s > k), tob(s >= k)
        self.c.require(T.iff(self.active(j + 1), bor(band(self.active(j), stay), band(bnot(self.active(j)), up))))

    # -- loop contract ----------------------------------------------------------------------------------------
    def handler(self, label, it, env):
        if not any(isinstance(v, list) for v in env.values()):
            return None
        if E._isarr(it):
            it = it.as_seq()
        if not isinstance(it, SymSeq):
            return None
        self.seq = it
        return self

    def enter(self, L, label, entry, names, assigned):
        c = self.c
        if self.done is not None:
            raise Unsupported("several loops")
        self.label, self.entry = label, entry
        for n, v in entry.items():
            if isinstance(v, list) and len(v):
                raise Unsupported("list at loop entry")
        k0 = self.ks(ZERO)
        c.require(T.iff(self.active(ZERO), tob(k0 >= Num(self.k))))
        c.require(eq(self.start(ZERO), self.lat(ZERO)))

    def cands(self, n, v):
        if isinstance(v, (SBool, bool)):
            return [lambda j: SBool(self.active(j)), lambda j: SBool(bnot(self.active(j)))]
        if isinstance(v, Ext):
            return [lambda j: self.ks(j)]
        if isinstance(v, (Num, int, float)):
            return [lambda j: Num(ite(self.active(j), self.start(j), app("JUNK:" + n, [j]))), lambda j: Num(self.lat(j)),
                    lambda j: Num(j)]
        raise Unsupported("loop variable of type %r" % type(v))

    def pick(self, n, j):
        ix = self.c.ex.shared.setdefault("persist", {}).setdefault((self.label, n), 0)
        cs = self.cands(n, self.entry[n])
        if ix >= len(cs):
            raise Unsupported("no loop invariant found for " + n)
        return cs[ix](topoly(j)), ix

    def holds(self, n, ix, got, want, j):
        c = self.c
        if isinstance(want, SBool):
            return isinstance(got, (SBool, bool)) and c.entails(T.iff(tob(got), want.b))
        if isinstance(want, Ext):
            return isinstance(got, Ext) and c.entails(band(eq(got.p, want.p), eq(got.s, want.s), bnot(got.nan)))
        if not isinstance(got, (Num, int, float, Ext)):
            return False
        if isinstance(got, Ext):
            if not c.entails(band(eq(got.s, ZERO), bnot(got.nan))):
                return False
            got = got.p
        if ix == 0:
            return c.entails(bor(bnot(self.active(j)), eq(topoly(got), self.start(j))))
        return c.entails(eq(topoly(got), want.p))

    def carried(self, L):
        return [n for n, v in self.entry.items() if n in L.assigned and not isinstance(v, list)]

    def next_cand(self, n):
        self.c.ex.shared["persist"][(self.label, n)] += 1
        self.c.ex.restart = True

    def begin(self, L):
        c = self.c
        for n in self.carried(L):
            w, ix = self.pick(n, ZERO)
            if not self.holds(n, ix, self.entry[n], w, ZERO):
                self.next_cand(n)
                raise PathEnd()
        self.i = T.var("j", "i")
        c.require(ge(self.i, ZERO))
        c.require(lt(self.i, self.seq.n))
        c.require(lt(self.i + 1, self.g.nlat))
        # invariant of the definition (shown in its own unit)
        s, k = self.ks(self.i), Num(self.k)
        c.require(bor(band(self.active(self.i), tob(s >= k)), band(bnot(self.active(self.i)), tob(s <= k))))
        self.define(self.i)
        return self.seq.fn(self.i)

    def head(self, L, n):
        v = self.entry.get(n)
        if isinstance(v, list):
            return self.lists.setdefault(n, WaveList(self.i))
        if n not in L.assigned:
            return v
        if n not in self.entry:
            return E.Poison(n)
        return self.pick(n, self.i)[0]

    def end_body(self, L, env):
        c, i = self.c, self.i
        a0, a1 = c.decide(self.active(i)), c.decide(self.active(i + 1))
        if len(self.lists) != 1:
            raise Unsupported("lists of waveguides")
        (n, l), = self.lists.items()
        l = env.get(n)
        if not isinstance(l, WaveList):
            raise Unsupported("list of waveguides")
        if a0 and not a1:
            prove_is("waveguide closed once", len(l.appended) == 1, "%r" % (l.appended,))
            for w in l.appended[:1]:
                self.check_guide("waveguide", w, self.start(i), lambda e: self.check_boundary("end", i, e))
        else:
            prove_is("no waveguide closed", not l.appended, "%r" % (l.appended,))
        if a1 and a0:
            c.require(eq(self.start(i + 1), self.start(i)))
        elif a1:
            # the new start is defined by the value of the start variable, once that is shown to be right
            for v in self.carried(L):
                w, ix = self.pick(v, i)
                if isinstance(w, Num) and ix == 0:
                    e = env.get(v)
                    if isinstance(e, (Num, int, float, Ext)):
                        c.require(eq(self.start(i + 1), self.check_boundary("start", i, e)))
        for v in self.carried(L):
            w, ix = self.pick(v, i + 1)
            if not self.holds(v, ix, env.get(v), w, i + 1):
                if ix + 1 < len(self.cands(v, self.entry[v])):
                    self.next_cand(v)
                    return
                c.violated("invariant: " + v, "%r" % (env.get(v),))

    def check_guide(self, name, w, start, check_end):
        if not (isinstance(w, (tuple, list)) and len(w) == 2):
            self.c.violated(name, "not a pair: %r" % (w,))
            return
        s = w[0]
        if isinstance(s, Ext):
            self.c.prove(name + ": start not NaN", band(bnot(s.nan), eq(s.s, ZERO)))
            s = s.p
        prove_eq(name + ": start", s, start)
        check_end(w[1])

    def exit(self, L):
        c = self.c
        for n in self.carried(L):
            w, ix = self.pick(n, ZERO)
            if not self.holds(n, ix, self.entry[n], w, ZERO):
                self.next_cand(n)
                raise PathEnd()
        prove_eq("every pair of neighbouring latitudes is scanned", self.seq.n, self.g.nlat - 1)
        self.done = self.g.nlat - 1

    def post(self, L, n):
        v = self.entry.get(n)
        if isinstance(v, list):
            return self.lists.setdefault(n, WaveList(self.done))
        if n not in L.assigned:
            return v
        if n not in self.entry:
            return E.Poison(n)
        return self.pick(n, self.done)[0]

    def finish(self, r):
        c = self.c
        if self.done is None:
            raise Unsupported("no scan over the latitudes")
        if not isinstance(r, WaveList):
            c.violated("result", "not the list of waveguides: %r" % (r,))
            return
        if c.decide(self.active(self.done)):
            prove_is("last waveguide", len(r.appended) == 1, "%r" % (r.appended,))
            for w in r.appended[:1]:
                self.check_guide("last waveguide", w, self.start(self.done),
                                 lambda e: prove_eq("ends at the south pole", Ext.of(e).p, self.lat(self.done)))
        else:
            prove_is("no further waveguide", not r.appended, "%r" % (r.appended,))


UW = [DG + "extract_ks_waveguides", DG + "_get_grid_vars", "state.State.extract_ks_waveguides"]
for _v in ("real", "complex", "small integer"):
    @unit("C17", "extract_ks_waveguides, %s Ks" % _v, under=UW, max_paths=3000)
    def waveguides(c, variant=_v):
        pkg = package()
        g = G(pkg)
        if c.fork():
            k = Num(T.var("k"))
            kk = k.p
        else:
            k = Num(T.var("kc", "c"))
            kk = D.N.cre(k.p) - D.N.cim(k.p)
        s = Scan(c, g, kk, variant)
        fn = (lambda i: CExt(i[0])) if variant == "complex" else (lambda i: s.ks(i[0]))
        ks = SymArray((g.nlat,), "X", fn)
        if variant == "small integer":
            ks = SymArray((g.nlat,), "n", lambda i: app("KS", [i[0]]))
        how = choose(c, ["grid", "State", "shortcut"])
        if how == "grid":
            r = pkg.diagnostics.extract_ks_waveguides(ks, k, g.grid)
        else:
            State = pkg.state.State

            class S(State):
                def __init__(self):
                    self.__dict__["grid"] = g.grid
            S.stationary_wavenumber = property(lambda self: ks)
            S.__name__ = "State"
            r = pkg.diagnostics.extract_ks_waveguides(S(), k) if how == "State" else S().extract_ks_waveguides(k)
        s.finish(r)


@unit("C17", "waveguides are where interpolated Ks exceeds k", under=UW)
def declarative(c):
    """lemma about the definition of the scan: with starts and ends at the crossings, a latitude between two gridpoints is
    inside a waveguide where the linear interpolant exceeds k, and outside where it is less than k"""
    pkg = package()
    g = G(pkg)
    k = T.var("k")
    s = Scan(c, g, k, "real")
    j = T.var("j", "i")
    c.require(ge(j, ZERO))
    c.require(lt(j + 1, g.nlat))
    inv = lambda j: bor(band(s.active(j), tob(s.ks(j) >= Num(k))), band(bnot(s.active(j)), tob(s.ks(j) <= Num(k))))
    # induction: base (latitude 0) and step
    c.prove("Ks at the north pole", bor(bnot(T.iff(s.active(ZERO), tob(s.ks(ZERO) >= Num(k)))), inv(ZERO)))
    c.require(inv(j))
    s.define(j)
    c.prove("Ks at the next latitude", inv(j + 1))
    c.require(s.fin(j))
    c.require(s.fin(j + 1))
    t = T.var("t")
    c.require(ge(t, ZERO))
    c.require(le(t, ONE))
    a, b = s.ks(j).p, s.ks(j + 1).p
    lat = s.lat(j) + t * (s.lat(j + 1) - s.lat(j))
    at = a + t * (b - a)
    a0, a1 = c.decide(s.active(j)), c.decide(s.active(j + 1))
    if a0 and a1:
        c.prove("inside", ge(at, k))
    elif not a0 and not a1:
        c.prove("outside", le(at, k))
    elif a0:
        c.prove("end", T.iff(ge(at, k), ge(lat, s.crossing(j))))
    else:
        c.prove("start", T.iff(ge(at, k), le(lat, s.crossing(j))))


small_integers("C17", "stationary_wavenumber,")
