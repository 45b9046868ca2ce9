from .common import *
import collections.abc as _abc
import copy as _copy
import numbers as _numbers
import pickle as _pickle

L = "state.StateList."


class Family:
    """Ghost sequences of States of any length: value number k of sequence `fam` is Elem(fam, k)"""

    def __init__(self, pkg, any_type=False):
        self.pkg = pkg
        State = pkg.state.State
        fam = self

        class Elem(State):
            """the k-th object of a sequence: a State (if any_type: or not, decided by a predicate)"""

            def __init__(self, name, k):
                self.__dict__.update(name=name, k=topoly(k))

            @property
            def grid(self):
                return AGrid(app("GRIDCLASS:" + self.name, [self.k], "i"))

            time = property(lambda self: Val("time", self.name, self.k))
            # an attribute of States that the class itself does not know (set on instances or by a subclass)
            extra = property(lambda self: Val("extra", self.name, self.k))

            def __getattr__(self, n):
                if n.startswith("__") or n == "missing":
                    raise AttributeError(n)
                raise Unsupported("%s of a State" % n)

            def __eq__(self, o):
                raise Unsupported("comparison of States")
            __hash__ = object.__hash__

            def __repr__(self):
                return "%s[%s]" % (self.name, T.show(self.k))
            __str__ = __repr__
            __format__ = lambda self, s: repr(self)

            def __subst__(self, mp, memo):
                return _fam[0].Elem(self.name, subst(self.k, mp))

            def __merge__(self, c, o):
                if isinstance(o, _fam[0].Elem) and o.name == self.name:
                    return _fam[0].Elem(self.name, ite(c, self.k, o.k))
                raise Unsupported("States of several sequences")
        if any_type:
            def isinst(self, c):
                if c is State:
                    return SBool(T.pred("ISSTATE:" + self.name, [self.k]))
                raise Unsupported("type of an unknown object")
            Elem.__isinstance__ = isinst
        Elem.__name__ = "State"
        self.Elem = Elem

        class AGrid:
            """a grid, known up to equality"""

            def __init__(self, c):
                self.c = c

            def __eq__(self, o):
                return SBool(eq(self.c, o.c)) if hasattr(o, 'c') else False

            def __ne__(self, o):
                return SBool(bnot(eq(self.c, o.c))) if hasattr(o, 'c') else True

            def __hash__(self):
                raise Unsupported("hash of a grid")

            def __symhash__(self):
                # equal grids have equal hashes, others may
                return app("GRIDHASH", [self.c], "i")
            __repr__ = lambda self: "<grid>"
        self.AGrid = AGrid

    def seq(self, name, n, kind="list"):
        return SymSeq(topoly(n), lambda i: self.Elem(name, i), kind)

    def gridclass(self, name, k):
        return app("GRIDCLASS:" + name, [topoly(k)], "i")

    def length(self, c, name, least=0):
        n = T.var(name, "i")
        c.require(ge(n, const(least)))
        return n

    def same_grids(self, c, name, n):
        v = gfresh("k")
        c.require(forall([(v, topoly(n))], eq(self.gridclass(name, v), self.gridclass(name, ZERO))))

    def make(self, c, name, least=0):
        """a valid StateList of arbitrary length"""
        n = self.length(c, "n_" + name, least)
        self.same_grids(c, name, n)
        return self.pkg.state.StateList(self.seq(name, n)), n


class Val:
    """The value of something for the k-th State: an array, a number, a State or anything else"""
    arity = 2

    def __init__(self, what, name, k, args=()):
        self.what, self.name, self.k, self.args = what, name, topoly(k), args

    def isa(self, kind):
        # exactly one of the four kinds
        a, n, s = (T.pred("%s:%s:%s" % (q, self.what, self.name), [self.k]) for q in ("ISARRAY", "ISNUMBER", "ISASTATE"))
        if kind == "array":
            return a
        if kind == "number":
            return band(n, bnot(a))
        return band(s, bnot(a), bnot(n))

    def __isinstance__(self, c):
        if c in (N.SymArray, N.NdArray):
            return SBool(self.isa("array"))
        if c in (_numbers.Number, _numbers.Complex):
            return SBool(self.isa("number"))
        if isinstance(c, type) and c.__name__ == "State":
            return SBool(self.isa("State"))
        raise Unsupported("isinstance of an unknown value against %r" % (c,))

    @property
    def grid(self):
        return None if False else _fam[0].AGrid(app("GRIDCLASS:" + self.name, [ZERO], "i"))

    def term(self, idx):
        return app("VALUE:%s:%s" % (self.what, self.name), [self.k] + list(idx))

    def __symkind__(self):
        for k in ("array", "number"):
            if ctx().decide(self.isa(k)):
                return k
        raise Unsupported("array of arbitrary objects")

    def __symarray__(self, kind=None):
        kind = kind or self.__symkind__()
        if kind == "array":
            sh = [T.var("s%d" % q, "i", pos=True) for q in range(Val.arity)]
            return SymArray(tuple(sh), "f", lambda i: self.term(i))
        return Num(self.term(()))

    def __subst__(self, mp, memo):
        return Val(self.what, self.name, subst(self.k, mp), self.args)

    def __merge__(self, c, o):
        if isinstance(o, Val) and (o.what, o.name, o.args) == (self.what, self.name, self.args):
            return Val(self.what, self.name, ite(c, self.k, o.k), self.args)
        raise Unsupported("merged values")

    def _no(self, *a):
        raise Unsupported("operation on an unknown value")
    __add__ = __radd__ = __mul__ = __rmul__ = __len__ = __iter__ = __getitem__ = __bool__ = __eq__ = __float__ = _no
    __hash__ = object.__hash__
    __repr__ = lambda self: "%s of %s[%s]" % (self.what, self.name, T.show(self.k))


_fam = [None]


def look_at(c, *terms):
    """make the verifier instantiate quantified facts at these indices (fresh names for the terms)"""
    for t in terms:
        c.require(eq(gfresh("at"), topoly(t)))


def indices(c):
    out = {a for h in S.expand(c.hyps()) for a in h.fv if a.sort == "i" and a.kind == "var"}
    return [T.atom_poly(a) for a in out]


def setup(any_type=False):
    pkg = package()
    f = Family(pkg, any_type)
    _fam[0] = f
    return pkg, f


def prove_states(name, sl, want, n):
    """sl is a StateList (or sequence) of n States with entry k being want(k)"""
    c = ctx()
    pkg = _fam[0].pkg
    if type(sl) is not pkg.state.StateList:
        c.violated(name, "not a StateList: %r" % (type(sl),))
        return
    prove_entries(name, sl, want, n)


def prove_entries(name, sl, want, n):
    c = ctx()
    n = topoly(n)
    prove_eq(name + ": length", E.v_len(sl), n)
    if not c.decide(gt(n, ZERO)):
        return
    k = T.var("entry", "i")
    c.require(ge(k, ZERO))
    c.require(lt(k, n))
    entry(name + ": entry", sl[Num(k)], want(k))
    # negative indices count from the end
    entry(name + ": entry from the end", sl[Num(k - n)], want(k))
    # iteration visits the same entries
    it = E.v_iter(type(sl).__iter__(sl)) if not isinstance(sl, (list, SymSeq)) else E.v_iter(sl)
    if isinstance(it, SymSeq):
        prove_eq(name + ": iteration length", it.n, n)
        entry(name + ": iteration", it.fn(k), want(k))
    else:
        xs = list(it)
        prove_eq(name + ": iteration length", len(xs), n)
        for j, x in enumerate(xs):
            entry(name + ": iteration", x, want(const(j)))


def entry(name, got, want):
    c = ctx()
    if isinstance(want, Val):
        ok = isinstance(got, Val) and (got.what, got.name, got.args) == (want.what, want.name, want.args)
    else:
        ok = type(got) is type(want) and got.name == want.name
    if not ok:
        c.violated(name, "got %r, expected %r" % (got, want))
        return
    prove_eq(name, got.k, want.k)


@unit("C15", "construction", under=[L + "__init__", L + "__getitem__", L + "__len__", L + "__iter__", L + "grid"])
def construction(c):
    """accepts States on equal grids, in order; rejects everything else"""
    pkg, f = setup(any_type=True)
    n = f.length(c, "n")
    v = gfresh("k")
    states = forall([(v, n)], T.pred("ISSTATE:A", [v]))
    equal = forall([(v, n)], eq(f.gridclass("A", v), f.gridclass("A", ZERO)))
    kind = "list" if c.fork() else "iter" if c.fork() else "tuple"
    try:
        sl = pkg.state.StateList(f.seq("A", n, kind))
    except (PathEnd, Unsupported):
        raise
    except Exception as e:
        prove("%s: rejects only non-States and unequal grids" % kind, bnot(band(states, equal)))
        return
    prove("%s: accepts only States" % kind, states)
    prove("%s: accepts only equal grids" % kind, equal)
    prove_states(kind, sl, lambda k: f.Elem("A", k), n)
    if c.decide(eq(n, ZERO)):
        prove_is("no grid", sl.grid is None and not E.truth(sl))
    else:
        prove_eq("the common grid", sl.grid.c, f.gridclass("A", ZERO))
        prove_is("true", E.truth(sl))
        for bad in (Num(n), Num(-n - 1)):
            prove_raises("index out of range", IndexError, lambda: sl[bad])


@unit("C15", "concatenation", under=[L + "__add__"])
def concatenation(c):
    pkg, f = setup()
    a, n = f.make(c, "A")
    how = "StateList" if c.fork() else "list"
    m = f.length(c, "m")
    f.same_grids(c, "B", m)
    b = f.seq("B", m)
    if how == "StateList":
        b = pkg.state.StateList(b)
    ok = bor(eq(n, ZERO), eq(m, ZERO), eq(f.gridclass("A", ZERO), f.gridclass("B", ZERO)))
    look_at(c, ZERO, n)
    try:
        r = a + b
    except (PathEnd, Unsupported):
        raise
    except Exception as e:
        look_at(c, *[v - n for v in indices(c)])
        prove(how + ": rejects only unequal grids", bnot(ok))
        return
    prove(how + ": accepts only equal grids", ok)
    prove_is("new list", r is not a and r is not b)
    if type(r) is not pkg.state.StateList:
        c.violated(how, "not a StateList: %r" % (type(r),))
        return
    prove_eq(how + ": length", E.v_len(r), n + m)
    k = T.var("entry", "i")
    c.require(ge(k, ZERO))
    c.require(lt(k, n + m))
    if c.decide(lt(k, n)):
        entry(how + ": first part", r[Num(k)], f.Elem("A", k))
    else:
        entry(how + ": second part", r[Num(k)], f.Elem("B", k - n))
    # operands unmodified
    prove_eq("operand length", E.v_len(a), n)
    j = T.var("j", "i")
    c.require(ge(j, ZERO))
    c.require(lt(j, n))
    entry("operand", a[Num(j)], f.Elem("A", j))


@unit("C15", "immutable", under=[L + "__init__", L + "__getattr__"])
def immutable(c):
    """no item assignment, deletion, insertion or in-place extension; += makes a new list"""
    pkg, f = setup()
    a, n = f.make(c, "A", 1)
    e = f.Elem("A", ZERO)
    for nm in ("__setitem__", "__delitem__", "__iadd__", "__imul__"):
        prove_is(nm + " undefined", not hasattr(type(a), nm), nm)
    for nm in ("append", "extend", "insert", "remove", "clear", "reverse", "sort"):
        def call():
            m = getattr(a, nm)
            if callable(m):
                m(e)
            raise Unsupported(nm)
        prove_is(nm + " undefined", not hasattr(type(a), nm), nm)
    prove_is("a sequence", isinstance(a, _abc.Sequence))
    # the list given is not kept
    src = [f.Elem("A", ZERO)]
    b = pkg.state.StateList(src)
    src.append(f.Elem("B", ZERO))
    prove_eq("caller's list is not kept", E.v_len(b), ONE)


@unit("C15", "copy and pickle", under=[L + "__getattr__"])
def copying(c):
    """the copy protocol meets an instance without its contents: special names and contents are not broadcast"""
    pkg, f = setup()
    SL = pkg.state.StateList
    a, n = f.make(c, "A")
    o = object.__new__(SL)
    for nm in ("__setstate__", "__reduce_hook__", "__deepcopy__", "__getnewargs__", "__getnewargs_ex__", "__array__",
               "__array_interface__", "__copy__", "__getinitargs__", "__len_hint__") + tuple(vars(a)):
        try:
            getattr(o, nm)
            c.violated("empty instance: " + nm, "attribute exists") if not hasattr(SL, nm) else prove_is(nm, True)
        except AttributeError:
            prove_is("empty instance: " + nm, True)
    for nm in ("__array__", "__array_interface__", "__deepcopy__", "__copy__", "__setstate__"):
        if not hasattr(SL, nm):
            prove_is("no broadcasting of " + nm, not hasattr(a, nm))
    b = _copy.copy(a)
    prove_is("copy is a list of its own", b is not a)
    prove_states("copy", b, lambda k: f.Elem("A", k), n)


# -- broadcasting ---------------------------------------------------------------------------------------------
def converted(name, r, what, fam, n, args=()):
    """the contract of a collected result: stacked arrays/numbers, StateList of States, list of anything else"""
    c = ctx()
    f = _fam[0]
    v = gfresh("k")
    V = lambda k: Val(what, fam, k, args)
    allk = lambda kind: forall([(v, n)], V(v).isa(kind))
    nonempty = bnot(eq(n, ZERO))
    if not c.decide(nonempty):
        prove_eq(name + ": empty", E.v_len(r), ZERO)
        return
    if isinstance(r, SymArray):
        if r.ndim == 1:
            prove(name + ": array of numbers", allk("number"))
            prove_array(name, r, (n,), lambda k: V(k).term(()))
        else:
            prove(name + ": array of arrays", allk("array"))
            sh = [T.var("s%d" % q, "i", pos=True) for q in range(Val.arity)]
            prove_array(name, r, [n] + sh, lambda k, *i: V(k).term(i))
    elif type(r) is f.pkg.state.StateList:
        prove(name + ": StateList of States", allk("State"))
        prove_entries(name, r, V, n)
    elif isinstance(r, (SymSeq, list)) and getattr(r, "kind", "list") == "list":
        prove(name + ": list of other values", band(*[bnot(allk(q)) for q in ("array", "number", "State")]))
        prove_entries(name, r, V, n)
    else:
        c.violated(name, "neither array, StateList nor list: %r" % (type(r),))


def states_class(f):
    """contracts in place of all State members: the value of member `name` for State k, with the arguments of a call"""
    State = f.pkg.state.State
    props, meths = [], []
    for nm, m in list(vars(State).items()):
        if nm.startswith("_"):
            continue
        if isinstance(m, property) or type(m).__name__ == "CachedProperty":
            setattr(State, nm, property(lambda self, nm=nm: Val(nm, self.name, self.k)))
            props.append(nm)
        elif callable(m):
            def meth(self, *a, nm=nm, **k):
                if not isinstance(self, f.Elem):
                    raise TypeError("unbound call of %s" % nm)
                return Val(nm, self.name, self.k, (a, tuple(sorted(k.items()))))
            setattr(State, nm, meth)
            meths.append(nm)
    return props, meths


class Arg:
    """an argument of any type"""

    def __repr__(self):
        return "<argument>"


def own(pkg, nm):
    return nm in vars(pkg.state.StateList)


@unit("C15", "attributes", under=[L + "__getattr__", "state._convert_sequence"], max_paths=4000, seconds=400)
def attributes(c):
    """every attribute of States, whatever its values are"""
    pkg, f = setup()
    props, meths = states_class(f)
    names = [p for p in props if not own(pkg, p)] + ["time", "extra"]
    nm = choose(c, names)
    Val.arity = 2
    a, n = f.make(c, "A")
    converted(nm, getattr(a, nm), nm, "A", n)


@unit("C15", "attributes with 1d arrays", under=[L + "__getattr__", "state._convert_sequence"])
def attributes1(c):
    pkg, f = setup()
    states_class(f)
    Val.arity = 1
    a, n = f.make(c, "A")
    r = a.extra
    if isinstance(r, SymArray) and r.ndim == 2:
        converted("extra", r, "extra", "A", n)
    else:
        prove("not arrays", TRUE)


@unit("C15", "missing attribute", under=[L + "__getattr__"])
def missing(c):
    pkg, f = setup()
    a, n = f.make(c, "A", 1)
    prove_raises("attribute no State has", AttributeError, lambda: a.missing)


@unit("C15", "methods", under=[L + "__getattr__", L + "map", "state._convert_sequence"], max_paths=4000, seconds=400)
def methods(c):
    pkg, f = setup()
    props, meths = states_class(f)
    Val.arity = 2
    nm = choose(c, [m for m in meths if not own(pkg, m)])
    a, n = f.make(c, "A")
    x, y = Arg(), Arg()
    m = getattr(a, nm)
    if not callable(m):
        c.violated(nm, "not callable")
        return
    given = c.fork()
    r = m(x, name=y) if given else m()
    args = ((x,), (("name", y),)) if given else ((), ())
    converted(nm, r, nm, "A", n, args)


@unit("C15", "map", under=[L + "map", "state._convert_sequence"])
def map_(c):
    pkg, f = setup()
    Val.arity = 2
    a, n = f.make(c, "A")
    x, y = Arg(), Arg()

    def func(s, *args, **kw):
        return Val("func", s.name, s.k, (args, tuple(sorted(kw.items()))))
    converted("map", a.map(func, x, name=y), "func", "A", n, ((x,), (("name", y),)))


@unit("C15", "run", under=[L + "run"])
def run_(c):
    pkg, f = setup()
    a, n = f.make(c, "A")
    x, y = Arg(), Arg()
    seen = []

    class Model:
        def run(self, state, *args, **kw):
            if not isinstance(state, f.Elem) or state.name != "A":
                ctx().violated("integrates the States", repr(state))
            if args != (x,) or kw != {"name": y}:
                ctx().violated("passes the arguments on", repr((args, kw)))
            return f.Elem("last", state.k), Val("step", "A", state.k)
    f.same_grids(c, "last", n)
    r = a.run(Model(), x, name=y)
    if not (isinstance(r, tuple) and len(r) == 2):
        c.violated("result", "not a pair")
        return
    prove_states("final states", r[0], lambda k: f.Elem("last", k), n)
    if not isinstance(r[1], (SymSeq, list)) or getattr(r[1], "kind", "list") not in ("list", "tuple"):
        c.violated("outputs", "not a list: %r" % (type(r[1]),))
        return
    prove_entries("outputs", r[1], lambda k: Val("step", "A", k), n)


@unit("C15", "single-state run", under=["state.State.run"])
def run1(c):
    pkg, f = setup()
    x, y, out = Arg(), Arg(), Arg()
    s = f.Elem("A", ZERO)

    class Model:
        def run(self, *args, **kw):
            prove_is("passes State and arguments on", args == (s, x) if False else (len(args) == 2 and args[0] is s and
                     args[1] is x and kw == {"name": y}))
            return out
    prove_is("returns the outputs", s.run(Model(), x, name=y) is out)


def choose(c, xs):
    """an arbitrary element (one path each)"""
    for x in xs[:-1]:
        if c.fork():
            return x
    return xs[-1]
