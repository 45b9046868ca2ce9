from .common import *

M = "model.BarotropicModel."


class GhostList(list):
    """list at the head of an arbitrary iteration: the ghost sequence of m saved states after the initial one"""

    def __init__(self, m):
        super().__init__()
        self.m = m
        self.appended = []

    def append(self, x):
        self.appended.append(x)

    def __symlen__(self):
        return Num(self.m + 1 + len(self.appended))

    def __len__(self):
        raise Unsupported("native len of the list of saved states")

    def __iadd__(self, o):
        if type(o) is not list:
            raise Unsupported("list extension")
        self.appended.extend(o)
        return self

    def extend(self, o):
        self.__iadd__(o)

    def copy(self):
        r = GhostList(self.m)
        r.appended = list(self.appended)
        return r

    def __add__(self, o):
        r = self.copy()
        r += o
        return r

    def _no(self, *a, **k):
        raise Unsupported("operation on the list of saved states")
    insert = pop = remove = clear = sort = reverse = __getitem__ = __setitem__ = __iter__ = __contains__ = _no


class Run:
    """Ghost time levels of an integration: X(k) filtered state at level k (X(0) the initial state), U(k) unfiltered"""

    def __init__(self, c, times):
        self.c = c
        self.pkg = pkg = package()
        run = self
        time, step = clock(c, times)
        self.t0, self.dt, self.tend = time("t0"), step("dt"), time("tend")
        c.require(gt(seconds(self.dt), ZERO))
        self.save = None
        self.k = self.m = None
        self.lists = {}
        State = pkg.state.State

        class Level(State):
            def __init__(self, kind, k):
                self.__dict__.update(kind=kind, k=topoly(k), grid=None, time=run.at(k))

            def __getattr__(self, name):
                raise Unsupported("%s of a state in run" % name)

            def __eq__(self, o):
                raise Unsupported("comparison of states")
            __hash__ = object.__hash__

            def __repr__(self):
                return "%s(%s)" % (self.kind, T.show(self.k))
        Level.__name__ = "State"
        self.Level = Level
        self.X0 = Level("X", ZERO)
        model = pkg.model.BarotropicModel()
        self.model = model

        def euler(self_, state_now, dt):
            run.called(self_)
            if state_now is not run.X0:
                c.violated("euler step from the initial state", repr(state_now))
                raise PathEnd()
            if isinstance(dt, Delta) != isinstance(run.dt, Delta):
                c.violated("euler step with dt", repr(dt))
                raise PathEnd()
            prove_eq("euler step with dt", seconds(dt), seconds(run.dt))
            return Level("U", ONE)

        def leapfrog(self_, state_old, state_now, filter_parameter=None):
            run.called(self_)
            if filter_parameter is not None:
                prove_eq("default filter", filter_parameter, const(1) / 5)
            if not isinstance(state_old, Level) or not isinstance(state_now, Level) or state_old.kind != "X" \
                    or state_now.kind != "U" or not c.entails(eq(state_old.k + 1, state_now.k)):
                c.violated("leapfrog step from successive levels", "%r, %r" % (state_old, state_now))
                raise PathEnd()
            return Level("X", state_now.k), Level("U", state_now.k + 1)

        class Saved:
            def __init__(self, states):
                self.states = states
        self.Saved = Saved
        for name, f in (("BarotropicModel.euler", euler), ("BarotropicModel.leapfrog", leapfrog), ("StateList", Saved)):
            if not replace(pkg, "model." + name, f):
                raise Unsupported("model.%s not found" % name)
        c.ex.while_handlers.append(self.handler)

    def called(self, model):
        if model is not self.model:
            raise Unsupported("step of another model")

    def at(self, k):
        k = topoly(k)
        return self.t0 + (self.dt * Num(k))

    def before_end(self, k):
        return lt(seconds(self.at(k)), seconds(self.tend))

    def reached(self, k, m):
        """level k is saved when m were saved before"""
        s = self.save
        return band(gt(s, ZERO), ge(seconds(self.dt) * k, (m + 1) * s))

    # -- loop contract ----------------------------------------------------------------------------------
    def handler(self, label, entry):
        if any(isinstance(v, self.Level) for v in entry.values()):
            return self
        return None

    def enter(self, L, label, entry, names, assigned):
        if self.k is not None:
            raise Unsupported("several loops")
        self.entry = entry
        self.label = label
        for n, v in entry.items():
            if isinstance(v, list):
                if not (len(v) == 1 and v[0] is self.X0):
                    raise Unsupported("list at loop entry")

    def cands(self, v):
        dt, s = self.dt, self.save
        if isinstance(v, self.Level):
            return [lambda k, m: self.Level(v.kind, v.k + k)]
        if isinstance(v, Time) or (isinstance(v, Delta)):
            return [lambda k, m: v, lambda k, m: v + dt * Num(k), lambda k, m: v + Delta(s * m)]
        if isinstance(v, (Num, int, float)) and not isinstance(v, bool):
            p = topoly(v)
            return [lambda k, m, q=q: Num(q(k, m)) for q in (lambda k, m: p, lambda k, m: p + m * s,
                    lambda k, m: p + k * seconds(dt), lambda k, m: p + m, lambda k, m: p + k)]
        raise Unsupported("loop variable of type %r" % type(v))

    def invariant(self, n, k, m):
        ix = self.c.ex.shared.setdefault("persist", {}).setdefault((self.label, n), 0)
        cs = self.cands(self.entry[n])
        if ix >= len(cs):
            raise Unsupported("no loop invariant found for " + n)
        return cs[ix](k, m)

    def begin(self, L):
        c = self.c
        self.k, self.m = T.var("k", "i"), T.var("m", "i")
        c.require(ge(self.k, ZERO))
        c.require(ge(self.m, ZERO))
        # every earlier level is before the end
        c.require(bor(eq(self.k, ZERO), self.before_end(self.k - 1)))

    def head(self, L, n):
        v = L.entry[n]
        if isinstance(v, list):
            if n not in self.lists:
                self.lists[n] = GhostList(self.m)
            return self.lists[n]
        if n not in L.assigned:
            return v
        r = self.invariant(n, self.k, self.m)
        self.env = getattr(self, "env", {})
        self.env[n] = r
        return r

    def end_body(self, L, env):
        c, k, m = self.c, self.k, self.m
        c.prove("invariant: earlier levels are before the end", self.before_end(k))
        saved = c.decide(self.reached(k + 1, m))
        m2 = m + 1 if saved else m
        for n, l in self.lists.items():
            self.check_list("invariant: saved states", env.get(n), k + 1, saved)
        for n, v in L.entry.items():
            if n in L.assigned and not isinstance(v, list):
                want, got = self.invariant(n, k + 1, m2), env.get(n)
                if not self.holds(got, want):
                    if len(self.cands(v)) == 1:
                        c.violated("invariant: " + n, "%r, expected %r" % (got, want))
                    else:
                        c.ex.shared["persist"][(self.label, n)] += 1
                        c.ex.restart = True
                        return
        # variant: the distance to the end of the integration shrinks by dt in every iteration
        c.prove("variant", eq(seconds(self.at(k + 1)) - seconds(self.at(k)), seconds(self.dt)))

    def holds(self, got, want):
        c = self.c
        if isinstance(want, self.Level):
            return isinstance(got, self.Level) and got.kind == want.kind and c.entails(eq(got.k, want.k))
        if isinstance(want, (Time, Delta)):
            return type(got) is type(want) and c.entails(eq(got.p, want.p))
        return isinstance(got, (Num, int, float)) and c.entails(eq(topoly(got), topoly(want)))

    def check_list(self, name, l, k, saved):
        """l holds the ghost prefix and, if level k was reached by a multiple of save_every, X(k)"""
        c = self.c
        if not isinstance(l, GhostList):
            c.violated(name, "%r" % (l,))
            return
        if saved:
            ok = len(l.appended) == 1 and isinstance(l.appended[0], self.Level) and l.appended[0].kind == "X" \
                and c.entails(eq(l.appended[0].k, k))
            prove_is(name, ok, "after saving: appended %r, expected [X(%s)]" % (l.appended, T.show(k)))
        else:
            prove_is(name, not l.appended, "appended %r, expected nothing" % (l.appended,))

    # -- postcondition ------------------------------------------------------------------------------------
    def check(self, result):
        c = self.c
        if not (isinstance(result, tuple) and len(result) == 2):
            c.violated("result", "not a pair")
            return
        last, saved = result
        if not isinstance(last, self.Level) or last.kind != "X":
            c.violated("final state", "not a filtered state: %r" % (last,))
            return
        k = last.k
        prove("final state is not before the end", bnot(self.before_end(k)))
        prove("earlier levels are before the end", bor(eq(k, ZERO), self.before_end(k - 1)))
        prove_time("time of the final state", last.time, self.at(k))
        if not isinstance(saved, self.Saved):
            c.violated("saved states", "not a StateList")
            return
        l = saved.states
        if self.k is None:
            prove("no steps taken", eq(k, ZERO))
            l = list(l)
            prove_is("saved states", len(l) == 1 and l[0] is self.X0, "%r" % (l,))
        elif c.entails(eq(k, self.k)):
            self.check_list("saved states", l, k, False)
        elif c.entails(eq(k, self.k + 1)):
            self.check_list("saved states", l, k, c.decide(self.reached(k, self.m)))
        else:
            c.violated("final state", "%r" % (last,))
        prove_is("initial state unmodified", self.X0.time is self.X0.__dict__["time"] and set(vars(self.X0)) ==
                 {"kind", "k", "grid", "time"} and self.X0.k is ZERO)


UNDER = [M + "run", "model._to_seconds"]


def run_unit(times, save):
    def f(c):
        r = Run(c, times)
        if save == "default":
            r.save = ZERO
            r.check(r.model.run(r.X0, r.dt, r.tend))
        else:
            s = T.var("save_every")
            c.require(ge(s, ZERO))
            r.save = s
            if c.fork():
                r.check(r.model.run(r.X0, r.dt, r.tend, Num(s)))
            else:
                r.check(r.model.run(r.X0, r.dt, r.tend, save_every=Num(s)))
    return f


for _t in ("number", "datetime"):
    for _s in ("default", "any"):
        unit("C10", "run, %s, save_every %s" % (_t, _s), under=UNDER)(run_unit(_t, _s))


@unit("C10", "steps", under=[M + "euler", M + "leapfrog"])
def steps(c):
    """the contracts of the steps used above: times of the states they return"""
    pkg = package()
    g = G(pkg)
    m = pkg.model.BarotropicModel()
    for times in ("number", "datetime"):
        time, step = clock(c, times)
        t, dt = time("t0"), step("dt")
        a = pkg.state.State(g.grid, t, pv_spectral=g.spec("A"))
        b = m.euler(a, dt)
        prove_time(times + ": euler", b.time, t + dt)
        x, y = m.leapfrog(a, b)
        prove_time(times + ": filtered", x.time, t + dt)
        prove_time(times + ": new", y.time, t + dt + dt)
