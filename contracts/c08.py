"""States are immutable and accessors history independent.

Two parts. (a) Memoisation: a class invariant over the memo slots of a State, found by running every accessor on a fresh State: a slot is
as the constructor left it, or holds the value which a fresh State gets for it. Every accessor, started with any slots filled so, returns
what it returns on a fresh State and keeps the invariant; so it does after any history. (b) Frames: every contract of the other
properties is run again with all its input arrays, the arrays of its Grids and the memoised arrays of its States owned by the caller;
the obligation is that the code writes into none of them, and rebinds no attribute of a Grid and neither grid nor time of a State."""
import importlib

from .common import *
from .c15 import choose
from vfy import unit as U

ST = "state.State."
NAMES = ["pv", "avo", "pv_spectral", "u", "v", "streamfunction", "pv_flux_spectral", "vorticity", "vo", "vorticity_spectral", "enstrophy",
         "eddy_enstrophy", "energy", "pv_zonalized", "fawa", "falwa", "falwa_filtered", "v_envelope_hilbert", "stationary_wavenumber"]
METHODS = {"extract_ks_waveguides": lambda s: s.extract_ks_waveguides(4), "as_hn2016": lambda s: s.as_hn2016().pv_field}


# -- (a) accessors -------------------------------------------------------------------------------------------
class Functional:
    """contracts of the diagnostics called by State (decided in C12, C13, C17, C18): the result is a function of the arguments' values - of
    a State argument, of its PV and zonal wind"""

    def __init__(self, c, pkg, g):
        self.c, self.g, self.seen = c, g, []
        full, lat = (g.nlat, g.nlon), (g.nlat,)
        for name, shape, kind in (("falwa", full, "f"), ("fawa", lat, "f"), ("dominant_wavenumber_fourier", lat, "f"),
                                  ("dominant_wavenumber_wavelet", full, "f"), ("filter_by_wavenumber", full, "f"),
                                  ("envelope_hilbert", full, "f"), ("stationary_wavenumber", lat, "c"),
                                  ("extract_ks_waveguides", (T.var("guides", "i", pos=True), const(2)), "f")):
            replace(pkg, "diagnostics." + name, self.stub(name, shape, kind))
        replace(pkg, "grid.Grid.zonalize", self.stub("zonalize", lat, "f"))

    def stub(self, name, shape, kind):
        def f(*a, **k):
            key = tuple(self.value(x) for x in a) + tuple((w, self.value(k[w])) for w in sorted(k))
            m = self.find(name, key)
            return SymArray(tuple(topoly(d) for d in shape), kind, lambda i: app("%s%d" % (name, m), list(i), "c" if kind == "c" else "r"))
        return f

    def value(self, x):
        if type(x).__name__ == "State":
            return (self.value(x.grid), self.value(x.pv), self.value(x.u))
        if isinstance(x, SymArray):
            return x.snapshot()
        if isinstance(x, Num):
            return x.p
        if isinstance(x, (tuple, list)):
            return tuple(self.value(y) for y in x)
        if type(x).__name__ == "Grid":
            return ("grid", id(x))
        if x is None or isinstance(x, (int, float, str, bool)):
            return x
        raise Unsupported("diagnostic of %r" % type(x))

    def find(self, name, key):
        for m, (n, k) in enumerate(self.seen):
            if n == name and self.equal(k, key):
                return m
        self.seen.append((name, key))
        return len(self.seen) - 1

    def equal(self, a, b):
        if isinstance(a, tuple):
            return isinstance(b, tuple) and len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if isinstance(a, SymArray):
            if not isinstance(b, SymArray) or a.ndim != b.ndim or a.kind != b.kind:
                return False
            if not all(eq(x, y) is TRUE for x, y in zip(a._shape, b._shape)):
                return False
            i = tuple(T.var("fi%d" % k, "i") for k in range(a.ndim))
            return eq(topoly(a.get(i)), topoly(b.get(i))) is TRUE
        if isinstance(a, T.Poly) or isinstance(b, T.Poly):
            return eq(topoly(a), topoly(b)) is TRUE
        return a == b


def accessors(pkg):
    """every property of State and the methods without required arguments"""
    cls = pkg.state.State
    names = [n for n in NAMES if hasattr(cls, n)]
    names += [n for n in sorted(vars(cls)) if not n.startswith("_") and n not in names and n != "plot"
              and not callable(vars(cls)[n]) and hasattr(vars(cls)[n], "__get__") and not isinstance(vars(cls)[n], (classmethod, staticmethod))]
    return {**{n: (lambda s, n=n: getattr(s, n)) for n in names}, **{n: f for n, f in METHODS.items() if hasattr(cls, n)}}


def snap(x):
    return x.snapshot() if isinstance(x, SymArray) else x


def agree(name, got, want):
    if isinstance(want, SymArray):
        if not isinstance(got, SymArray):
            return ctx().violated(name, "%r" % type(got))
        return prove_same(name, got, want)
    if isinstance(want, Num) or isinstance(got, Num):
        return prove_eq(name, got, want)
    if isinstance(want, (tuple, list)):
        prove_is(name + " (length)", isinstance(got, (tuple, list)) and len(got) == len(want))
        for k, (x, y) in enumerate(zip(got, want)):
            agree("%s[%d]" % (name, k), x, y)
        return
    prove_is(name, got is want or type(got) is type(want) and got == want, "%r instead of %r" % (got, want))


class Memo:
    """a State by any constructor, its accessors' values on fresh States and the memo slots these fill"""

    def __init__(self, c, tag=""):
        from .c21 import Baro
        import types
        m = types.SimpleNamespace(BarotropicField=Baro)
        self.c = c
        self.pkg = package(extra={"falwa": types.SimpleNamespace(barotropic_field=m), "falwa.barotropic_field": m})
        self.g = G(self.pkg)
        self.F = Functional(c, self.pkg, self.g)
        self.acc = accessors(self.pkg)

    def make(self, how, tag=""):
        """a new State, and what its constructor stores"""
        g, S = self.g, self.pkg.state.State
        t = real("time" + tag)
        f = lambda n: g.field(n + tag)
        s = {"pv": lambda: S(g.grid, t, pv=f("q")), "pv_spectral": lambda: S(g.grid, t, pv_spectral=g.spec("S" + tag)),
             "from_wind": lambda: S.from_wind(g.grid, t, f("uu"), f("vv")),
             "sum": lambda: S(g.grid, t, pv=f("q")).add_vorticity(f("z"))}[how]()
        own_object(s, "State")
        return s

    def run(self, s, name):
        """the value of an accessor; memoised arrays belong to the State from then on"""
        x = snap(self.acc[name](s))
        own_object(s, "State")
        return x

    def learn(self, how, tag=""):
        """values on fresh States; the memo slots and the values they take there"""
        self.init = {k: snap(v) for k, v in vars(self.make(how, tag)).items()}
        self.slots, self.want = {}, {}
        for n in self.acc:
            s = self.make(how, tag)
            self.want[n] = self.run(s, n)
            for k, v in vars(s).items():
                if k not in self.init or (self.init[k] is not v and not self.same(self.init[k], v)):
                    if not any(self.same(v, w) for w in self.slots.setdefault(k, [])):
                        self.slots[k].append(snap(v))
        return self

    def same(self, a, b):
        if isinstance(a, SymArray) or isinstance(b, SymArray):
            return isinstance(a, SymArray) and isinstance(b, SymArray) and self.F.equal(a, b)
        return a is b or type(a) is type(b) and isinstance(a, (int, float, str, bool, T.Poly, Num)) and a == b

    def fill(self, s):
        """any slots hold a value a fresh State computes for them"""
        for k, vs in sorted(self.slots.items()):
            if self.c.fork():
                v = choose(self.c, vs)
                vars(s)[k] = snap(v)
        own_object(s, "State")

    def invariant(self, name, s):
        for k, v in vars(s).items():
            if k in self.init and (v is self.init[k] or self.same(v, self.init[k])):
                continue
            if k not in self.slots:
                if k in self.init:
                    self.c.violated("%s: %s unchanged" % (name, k), "%r" % (v,))
                else:
                    raise Unsupported("memo %s filled after others only" % k)
                continue
            if not any(self.same(v, w) for w in self.slots[k]):
                agree("%s: %s holds its value" % (name, k), v, self.slots[k][0])
        for k in self.init:
            if k not in vars(s):
                self.c.violated("%s: %s kept" % (name, k), "removed")


HOWS = ["pv", "pv_spectral", "from_wind", "sum"]


def add_accessor(n, under):
    @unit("C08", "%s with any fields memoised" % n, under=under, max_paths=6000, seconds=500)
    def any_history(c):
        how = choose(c, HOWS[:2])
        m = Memo(c).learn(how)
        if n not in m.acc:
            raise Unsupported("no accessor " + n)
        s = m.make(how)
        t, gr = s.time, s.grid
        m.fill(s)
        agree("value", m.run(s, n), m.want[n])
        m.invariant("memo", s)
        prove_is("time", s.time is t)
        prove_is("grid", s.grid is gr)
        agree("again", m.run(s, n), m.want[n])


for _n in NAMES + list(METHODS):
    add_accessor(_n, [ST + _n, ST + "__init__"])


@unit("C08", "two accessors in a row", under=[ST + n for n in NAMES] + ["state._cached_property"], max_paths=6000, seconds=500)
def pairs(c):
    """also for caches kept elsewhere than in the State"""
    how = choose(c, HOWS)
    m = Memo(c).learn(how)
    s = m.make(how)
    a = choose(c, list(m.acc))
    m.run(s, a)
    for b in m.acc:
        agree("%s after %s" % (b, a), m.run(s, b), m.want[b])
    agree("%s again" % a, m.run(s, a), m.want[a])
    m.invariant("memo", s)


@unit("C08", "another State in between", under=[ST + n for n in NAMES] + ["state._cached_property"], max_paths=6000, seconds=500)
def others(c):
    """memoised values are those of the State alone: also after accessors of another State on the grid, at the same or another time"""
    how = choose(c, HOWS[:2])
    m = Memo(c).learn(how)
    n = choose(c, list(m.acc))
    s, r = m.make(how), m.make(how, "_other")
    if c.fork():
        vars(r)["time"] = s.time
    for b in m.acc:
        m.run(r, b)
    agree("%s after other State" % n, m.run(s, n), m.want[n])
    w = Memo(c).learn(how, "_other")
    r2 = w.make(how, "_other")
    for b in w.acc:
        w.run(w.make(how), b)
    agree("%s of the other State" % n, w.run(r2, n), w.want[n])


# -- (b) frames --------------------------------------------------------------------------------------------
class Frame:
    def __init__(self, c):
        self.c, self.watched = c, []

    def watch(self, what, obj, names=None):
        self.watched.append((what, obj, {k: v for k, v in vars(obj).items() if names is None or k in names}))

    def package(self, pkg):
        cls = pkg.load("state").State
        init = vars(cls).get("__init__")
        frame = self

        def made(s, *a, **k):
            init(s, *a, **k)
            U.own_object(s, "State")
            frame.watch("State", s, ("grid", "time"))
        if init is not None:
            cls.__init__ = made
        for k, p in list(vars(cls).items()):
            if isinstance(p, property):
                setattr(cls, k, self.memo(k, p))

    def memo(self, k, p):
        def get(s):
            x = p.fget(s)
            if isinstance(x, SymArray) and any(isinstance(y, SymArray) and y.buf is x.buf for y in vars(s).values()):
                x.buf.owner = x.buf.owner or "State." + k
            return x
        return property(get)

    def check(self):
        for what, obj, was in self.watched:
            now = vars(obj)
            for k, v in was.items():
                if k not in now or now[k] is not v:
                    self.c.violated("frame: %s.%s" % (what, k), "the code rebinds %s.%s" % (what, k))


def framed(u):
    def run(c):
        h = Frame(c)
        U.FRAME[:] = [h]
        end = None
        try:
            u.fun(c)
        except (PathEnd, Unsupported) as e:
            end = e
        except Exception:
            pass            # decided in the property itself
        finally:
            U.FRAME[:] = []
        h.check()
        c.obls[:] = [o for o in c.obls if o[0].startswith("frame:")]
        if not c.obls:
            c.prove("frame: nothing of the caller is written", TRUE)
        if isinstance(end, PathEnd) or isinstance(end, Unsupported):
            raise end
    return run


OTHERS = ["02", "03", "04", "05", "06", "07", "09", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21"]


def frames():
    here = [u for u in U.UNITS if u.cid == "C08"]
    for n in OTHERS:
        m = importlib.import_module("contracts.c" + n)
    seen = set()
    for u in list(U.UNITS):
        if u.cid != "C08" and u.cid[1:] in OTHERS and u.under and u.key not in seen and not u.variant:
            seen.add(u.key)
            U.UNITS.append(U.Unit("C08", "frame of %s" % u.key, framed(u), u.under, bounded=u.bounded, max_paths=u.max_paths,
                                  seconds=min(u.seconds, 100), oblig_seconds=10))


frames()
