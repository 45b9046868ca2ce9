"""Symbolic execution of the real Python code: paths, symbolic scalars, loop contracts, loader."""
import ast
import builtins as _bi
import numbers
import os
import sys
import time
import types

from . import terms as T
from . import solver as S
from .terms import (Poly, B, TRUE, FALSE, ZERO, ONE, const, band, bor, bnot, eq, le, lt, ge, gt, ite, fresh, Unsupported,
                    subst, substb, is_var)

SRC = os.environ.get("VFY_SRC", "/repo/src/barotropic")


class PathEnd(BaseException):
    """The current path needs no further exploration (loop iteration verified, assumption violated)"""


class Ctx:
    """State of one path execution"""

    def __init__(self, explorer, script):
        self.ex = explorer
        self.script = script          # decisions to follow
        self.pos = 0
        self.taken = []               # decisions made (bool)
        self.pc = []                  # path condition incl. preconditions
        self.obls = []                # (name, goal, hyps)
        self.generic_stack = []
        self.violations = []          # frame violations
        self.thresholds = []
        self.trace = []
        self.choices = 0
        self.notes = []
        self.loop_epoch = 0           # arrays up to this serial number belong to the outside of a generic loop body

    # -- facts -------------------------------------------------------------------
    def require(self, b):
        b = tob(b)
        if b is FALSE:
            raise PathEnd()
        for x in (b.data if b.kind == "and" else (b,)):
            if x is not TRUE and x not in self.pc:
                self.pc.append(x)

    assume = require

    def hyps(self):
        h = list(self.pc)
        for g in self.generic_stack:
            h += g.hyps
        return h

    def decide(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        hy = self.hyps()
        if b in hy:
            return True
        nb = bnot(b)
        if nb in hy:
            return False
        for g in reversed(self.generic_stack):
            if b.fv & g.vars:
                return g.decide(self, b)
        t = S.feasible(hy + [b])
        if not t:
            self.require(nb)
            return False
        f = S.feasible(hy + [nb])
        if not f:
            self.require(b)
            return True
        r = self.fork()
        self.require(b if r else nb)
        return r

    def fork(self):
        if self.pos < len(self.script):
            r = self.script[self.pos]
        else:
            r = True
        self.pos += 1
        self.taken.append(r)
        if len(self.taken) > 200:
            raise Unsupported("path too long")
        return r

    def entails(self, b):
        b = tob(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        return S.entails(self.hyps(), b)

    # -- obligations -----------------------------------------------------------------
    def prove(self, name, goal):
        self.obls.append((name, tob(goal), list(self.hyps())))

    def violated(self, name, why):
        """an obligation that fails outright on this path"""
        self.obls.append((name, FALSE, list(self.hyps())))
        self.notes.append((name, why))


class Generic:
    """Evaluation of code for an arbitrary element (bound index variables): nested exploration"""

    def __init__(self, vars_, hyps):
        self.vars = frozenset(vars_)
        self.base = list(hyps)
        self.hyps = list(hyps)
        self.script = []
        self.pos = 0
        self.taken = []

    def decide(self, ctx, b):
        hy = ctx.hyps()
        if not S.feasible(hy + [b]):
            self.hyps.append(bnot(b))
            return False
        if not S.feasible(hy + [bnot(b)]):
            self.hyps.append(b)
            return True
        if self.pos < len(self.script):
            r = self.script[self.pos]
        else:
            r = True
        self.pos += 1
        self.taken.append(r)
        self.hyps.append(b if r else bnot(b))
        return r


_ctx = [None]
_clock = []          # serial number of the newest array (set by symnp)


def ctx():
    return _ctx[0]


def effects(values, depth=3, memo=None):
    """Shallow picture of the mutable state reachable from some values: {id: (object, contents)}"""
    memo = {} if memo is None else memo
    for x in values:
        if type(x) in (Poison, Star) or id(x) in memo or isinstance(x, (type, types.ModuleType, LoopList)):
            continue
        if isinstance(x, (list, tuple)):
            kids = list(x)
        elif isinstance(x, dict):
            kids = list(x.values())
        elif hasattr(x, "__dict__") and getattr(type(x), "__module__", "").startswith("barotropic"):
            kids = list(x.__dict__.values())
        else:
            continue
        keys = list(x) if isinstance(x, dict) else list(x.__dict__) if not isinstance(x, (list, tuple)) else None
        memo[id(x)] = (x, keys, kids)
        if depth > 0:
            effects(kids, depth - 1, memo)
    return memo


def no_effects(before, what):
    for x, keys, kids in before.values():
        now = list(x) if isinstance(x, (list, tuple)) else list(x.values()) if isinstance(x, dict) else list(x.__dict__.values())
        if len(now) != len(kids) or any(a is not b for a, b in zip(now, kids)):
            raise Unsupported("an object made before a loop is changed in the loop: " + what)


def generic_eval(binders, f):
    """Evaluate f() for arbitrary values of the bound index variables, merging all branches"""
    c = ctx()
    hy = []
    vs = []
    for v, n in binders:
        hy += [le(ZERO, v), lt(v, n)]
        vs.append(is_var(v))
    script = []
    results = []
    while True:
        g = Generic(vs, hy)
        g.script = script
        c.generic_stack.append(g)
        err = None
        val = None
        epoch = c.loop_epoch
        c.loop_epoch = _clock[0]()
        try:
            val = f()
        except PathEnd:
            raise Unsupported("path end inside an element evaluation")
        except Exception as e:
            err = e
        finally:
            c.generic_stack.pop()
            c.loop_epoch = epoch
        cond = band(*g.hyps[len(hy):])
        results.append((cond, val, err))
        # next script
        tk = g.taken[:]
        while tk and tk[-1] is False:
            tk.pop()
        if not tk:
            break
        tk[-1] = False
        script = tk
        if len(results) > 64:
            raise Unsupported("too many branches in element evaluation")
    ok = []
    for cond, val, err in results:
        if err is not None:
            fa = T.forall(list(binders), bnot(cond))
            if c.decide(bnot(fa)):
                raise err
        else:
            ok.append((cond, val))
    if not ok:
        raise Unsupported("element evaluation never succeeds")
    r = ok[-1][1]
    for cond, val in reversed(ok[:-1]):
        r = merge(cond, val, r)
    return r


def merge(c, a, b):
    if a is b:
        return a
    if isinstance(a, SBool) or isinstance(b, SBool) or (isinstance(a, bool) and isinstance(b, bool)):
        return SBool(T.bite(c, tob(a), tob(b)))
    if isinstance(a, (Num, int, float)) and isinstance(b, (Num, int, float)):
        return Num(ite(c, topoly(a), topoly(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    h = getattr(a, "__merge__", None)
    if h:
        return h(c, b)
    if TEXT_CHOICES and type(a) is str and type(b) is str:
        return a if a == b else Choice(c, a, b)
    raise Unsupported("cannot merge %r and %r" % (type(a), type(b)))


# -- symbolic scalars ------------------------------------------------------------------------
class SBool:
    __slots__ = ("b",)
    __array_priority__ = 100

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ctx().decide(self.b)

    def __repr__(self):
        return "SBool(%r)" % self.b

    def __and__(self, o):
        if _isarr(o):
            return NotImplemented
        return SBool(band(self.b, tob(o)))

    def __or__(self, o):
        if _isarr(o):
            return NotImplemented
        return SBool(bor(self.b, tob(o)))

    __rand__ = __and__
    __ror__ = __or__

    def __invert__(self):
        return SBool(bnot(self.b))

    def __eq__(self, o):
        if _isarr(o):
            return NotImplemented
        return SBool(T.iff(self.b, tob(o)))

    def __ne__(self, o):
        return SBool(bnot(T.iff(self.b, tob(o))))

    __hash__ = None

    def _num(self):
        return Num(ite(self.b, ONE, ZERO))

    def __add__(self, o):
        return self._num() + o

    def __mul__(self, o):
        return self._num() * o

    __radd__ = __add__
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def all(self):
        return self

    def any(self):
        return self


def _isarr(o):
    return getattr(type(o), "_is_symarray", False)


def _fl(o):
    """is o convertible to a scalar term"""
    return isinstance(o, (Num, int, float, SBool, Poly)) and not isinstance(o, bool) or isinstance(o, (bool,))


def topoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Num):
        return x.p
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return const(x)
    if isinstance(x, float):
        return float_term(x)
    if isinstance(x, SBool):
        return ite(x.b, ONE, ZERO)
    if isinstance(x, B):
        return ite(x, ONE, ZERO)
    h = getattr(x, "__topoly__", None)
    if h is not None:
        return h()
    raise TypeError("unsupported operand type for arithmetic: %r" % type(x).__name__)


def float_term(x):
    import math
    from fractions import Fraction
    if x != x:
        raise Unsupported("NaN constant")
    if x in (float("inf"), float("-inf")):
        return T.INF if x > 0 else -T.INF
    if x == math.pi:
        return T.PI
    # decimal reading of literals: 0.1 means 1/10 (arithmetic is over the reals)
    return const(Fraction(repr(x)))


def tob(x):
    if isinstance(x, B):
        return x
    if isinstance(x, SBool):
        return x.b
    if isinstance(x, bool):
        return T.blit(x)
    if isinstance(x, (Num, int, float)):
        return T.ne(topoly(x), ZERO)
    if _isarr(x):
        if x.ndim == 0:
            return tob(x.item())
    raise TypeError("not a boolean: %r" % (x,))


# np_scalar of numbers of a small or unsigned integer type
NARROW = "narrow"


def overflow(p, *operands):
    """what machine arithmetic of small or unsigned integers makes of the number p"""
    return p if p.const() is not None or any(p is q or p == q for q in operands) else T.app("OVERFLOW", [p])


def narrow_bin(a, b, f, how):
    x, y = topoly(a), topoly(b)
    r = f(x, y)
    if how == "float":
        return Num(r, True)
    # Python's integers take the type of the other operand, 64 bit integers and floating point numbers do not
    for z in (a, b):
        if isinstance(z, float) or (isinstance(z, Num) and z.np_scalar != NARROW and (z.np_scalar or z.p.sort != "i")):
            return Num(r, True)
    return Num(r if how == "exact" else overflow(r, x, y), NARROW)


class Num:
    """Symbolic number (real, integer or complex sort)"""
    __slots__ = ("p", "np_scalar")
    __array_priority__ = 100

    def __init__(self, p, np_scalar=False):
        self.p = p if isinstance(p, Poly) else topoly(p)
        self.np_scalar = np_scalar

    def __repr__(self):
        if self.p.sort == "i" and not self.np_scalar:
            return NumText(self.p)
        return "Num(%s)" % T.show(self.p)[:200]

    def _bin(self, o, f, how="wraps"):
        if _isarr(o):
            return NotImplemented
        if isinstance(o, (Num, int, float, SBool)):
            if self.np_scalar == NARROW or getattr(o, "np_scalar", False) == NARROW:
                return narrow_bin(self, o, f, how)
            return Num(f(self.p, topoly(o)), self.np_scalar or getattr(o, "np_scalar", False))
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, mul)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple)) and not isinstance(o, LoopList) and self.p.sort == "i":
            return repeated(o, self.p)
        return self._bin(o, mul)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b, "float")

    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a, "float")

    def __floordiv__(self, o): return self._bin(o, lambda a, b: T.floor(a / b), "exact")
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: T.floor(b / a), "exact")
    def __mod__(self, o): return self._bin(o, pmod, "exact")
    def __rmod__(self, o): return self._bin(o, lambda a, b: pmod(b, a), "exact")

    def __pow__(self, o):
        return self._bin(o, ppow)

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: ppow(b, a))

    def __neg__(self): return Num(-self.p if self.np_scalar != NARROW else overflow(-self.p), self.np_scalar)
    def __pos__(self): return self

    def __abs__(self):
        return Num(T.absr(self.p) if self.np_scalar != NARROW else overflow(T.absr(self.p)), self.np_scalar)

    def _cmp(self, o, f):
        if _isarr(o):
            return NotImplemented
        if isinstance(o, (Num, int, float, SBool)):
            return SBool(f(self.p, topoly(o)))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lt)
    def __le__(self, o): return self._cmp(o, le)
    def __gt__(self, o): return self._cmp(o, gt)
    def __ge__(self, o): return self._cmp(o, ge)

    def __eq__(self, o):
        r = self._cmp(o, eq)
        return False if r is NotImplemented and not _isarr(o) else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: bnot(eq(a, b)))
        return True if r is NotImplemented and not _isarr(o) else r

    def __hash__(self):
        c = self.p.const()
        if c is not None:
            return hash(c)
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return ctx().decide(T.ne(self.p, ZERO))

    def __index__(self):
        c = self.p.const()
        if c is not None and c.denominator == 1:
            return int(c)
        if self.p.sort == "i":
            for k in (0, 1, -1):
                if ctx().entails(eq(self.p, const(k))):
                    return k
        raise Unsupported("concrete integer required for %s" % T.show(self.p))

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = self.p.const()
        if c is not None:
            return float(c)
        raise Unsupported("concrete float required for %s" % T.show(self.p))

    def __floor__(self):
        return Num(T.floor(self.p))

    def __ceil__(self):
        return Num(-T.floor(-self.p))

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported("round with digits")
        return Num(pround(self.p))

    def __trunc__(self):
        return Num(ptrunc(self.p))

    def __format__(self, spec):
        t = "⟦%s|%s⟧" % (T.show(self.p), spec)
        FORMATTED[t] = self.p
        return t

    def __str__(self):
        return NumText(self.p)

    # numpy scalar look-alike
    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def real(self):
        from .symnp import NP
        return NP.real(self)

    @property
    def imag(self):
        from .symnp import NP
        return NP.imag(self)

    @property
    def dtype(self):
        from .symnp import DType
        return DType("n" if self.np_scalar == NARROW else {"i": "i", "r": "f", "c": "c"}[self.p.sort])

    def astype(self, d, **kw):
        from .symnp import cast_scalar
        return cast_scalar(self, d)

    def item(self):
        return Num(self.p)

    def is_integer(self):
        return SBool(eq(T.floor(self.p), self.p))

    def conjugate(self):
        return Num(T.app("conj", [self.p], "c")) if self.p.sort == "c" else self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class FNum(Num):
    """an integer value of floating point type, as float(k) gives"""
    __slots__ = ()

    def __repr__(self):
        return "Num(float %s)" % T.show(self.p)[:200]

    __str__ = __repr__

    def __format__(self, spec):
        return Num.__format__(self, "float " + spec) if spec == "" else Num.__format__(self, spec)

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        return Num.__index__(self)

    def _bin(self, o, f, how="wraps"):
        r = Num._bin(self, o, f, how)
        return FNum(r.p, r.np_scalar) if isinstance(r, Num) and r.p.sort == "i" and r.np_scalar != NARROW else r

    def __neg__(self): return FNum(-self.p, self.np_scalar)
    def __abs__(self): return FNum(T.absr(self.p), self.np_scalar)

    @property
    def dtype(self):
        from .symnp import DType
        return DType("f")

    def item(self):
        return FNum(self.p)


# terms by their text in formatted strings
FORMATTED = {}
TRANSLATED = {}


class NumText(str):
    """the digits of a symbolic number"""

    def __new__(cls, p):
        t = str.__new__(cls, "⟦%s⟧" % T.show(p))
        t.p = p
        FORMATTED[str(t)] = p
        return t

    def translate(self, table):
        t = "⟦translation %d⟧" % len(TRANSLATED)
        TRANSLATED[t] = (self.p, table)
        return t

    def _unknown(self, *a, **k):
        raise Unsupported("digits of a symbolic number")
    __getitem__ = __len__ = __iter__ = __contains__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _unknown
    replace = split = strip = lstrip = rstrip = zfill = rjust = ljust = center = startswith = endswith = find = index = _unknown
    count = partition = rpartition = isdigit = isnumeric = upper = lower = encode = removesuffix = removeprefix = _unknown
    __hash__ = str.__hash__


class Choice(str):
    """one of two texts: a if c else b; a character of its own in any text made from it (see TEXT_CHOICES)"""
    known = {}

    def __new__(cls, c, a, b):
        t = str.__new__(cls, chr(0xF0000 + len(cls.known)))
        cls.known[str(t)] = (c, a, b)
        return t

    __getitem__ = __len__ = __iter__ = __contains__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = NumText._unknown
    replace = split = strip = rjust = ljust = startswith = endswith = translate = NumText._unknown
    __hash__ = str.__hash__


# whether texts may depend on undecided conditions (only contracts about texts look at such texts)
TEXT_CHOICES = False

numbers.Number.register(Num)


def mul(a, b):
    # multiplication by infinity only keeps the sign
    if a is T.INF or b is T.INF:
        x = b if a is T.INF else a
        return ite(gt(x, ZERO), T.INF, ite(lt(x, ZERO), -T.INF, NAN))
    return a * b


NAN = T.var("NAN")


def psign(x):
    c = x.const()
    if c is not None:
        return const((c > 0) - (c < 0))
    return ite(gt(x, ZERO), ONE, ite(lt(x, ZERO), const(-1), ZERO))


def pmod(a, b):
    return a - b * T.floor(a / b)


def pround(p):
    if p.sort == "i":
        return p
    # to the nearest integer, ties to even
    h = p + const("1/2")
    r = T.floor(h)
    return ite(band(eq(r, h), eq(r - 2 * T.floor(r / 2), ONE)), r - 1, r)


def ptrunc(p):
    if p.sort == "i":
        return p
    return ite(ge(p, ZERO), T.floor(p), -T.floor(-p))


def ppow(a, b):
    c = b.const()
    if c is not None:
        if c.denominator == 1:
            return a ** int(c)
        if c * 2 == 1:
            return T.app("sqrt", [a])
    return T.app("pow", [a, b], "c" if a.sort == "c" else "r")


def repeated(l, n):
    """l * n for a list or tuple l"""
    k = n.const()
    if k is not None:
        return l * int(k)
    if len(l) != 1:
        raise Unsupported("symbolic repetition of several items")
    if ctx().decide(T.lt(n, ZERO)):
        n = ZERO
    return SymSeq(n, lambda i: l[0], "list" if isinstance(l, list) else "tuple")


# -- symbolic sequences -------------------------------------------------------------------
class SymSeq:
    """Sequence of symbolic length; elements given by a function of the (symbolic) index"""
    _is_symseq = True

    def __init__(self, n, fn, kind="list", part=None):
        self.n = const(n) if not isinstance(n, Num) else n.p
        self.fn = fn
        self.kind = kind
        # (length, start, element by index) of the sequence of which this one is a part
        self.part = part

    def __symlen__(self):
        return Num(self.n)

    def __len__(self):
        c = self.n.const()
        if c is None:
            raise Unsupported("native len of a symbolic sequence")
        return int(c)

    def at(self, i):
        return self.fn(topoly(i))

    def __getitem__(self, i):
        if isinstance(i, slice):
            from .symnp import norm_slice
            start, count, step = norm_slice(i, self.n)
            return SymSeq(count, lambda k: self.fn(start + topoly(k) * step), self.kind,
                          (self.n, start, self.fn) if step.const() == 1 and self.part is None else None)
        p = topoly(i)
        c = ctx()
        if c.decide(lt(p, ZERO)):
            p = p + self.n
        if not c.decide(band(ge(p, ZERO), lt(p, self.n))):
            raise IndexError("list index out of range")
        return self.fn(p)

    def __iter__(self):
        c = self.n.const()
        if c is not None:
            return iter([self.fn(const(k)) for k in range(int(c))])
        raise Unsupported("native iteration over a symbolic sequence")

    def map(self, f, kind=None):
        return SymSeq(self.n, lambda i: f(self.fn(i)), kind or self.kind)

    def __bool__(self):
        return ctx().decide(T.ne(self.n, ZERO))

    def append(self, x):
        raise Unsupported("append to a symbolic sequence outside a loop contract")


class LoopList(list):
    """List variable at the head of a loop iteration: unknown prefix + appended items"""

    def __init__(self, name, prefix_len):
        super().__init__()
        self.name = name
        self.prefix_len = prefix_len
        self.appended = []

    def append(self, x):
        self.appended.append(x)

    def extend(self, xs):
        if not isinstance(xs, (list, tuple)) or isinstance(xs, LoopList):
            raise Unsupported("extension of a list inside a loop contract by %r" % type(xs))
        self.appended.extend(list(xs))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def _no(self, *a, **k):
        raise Unsupported("operation on a list inside a loop contract")

    insert = pop = remove = clear = sort = reverse = _no
    __getitem__ = __setitem__ = __len__ = __iter__ = __add__ = __contains__ = _no

    def __symlen__(self):
        self._no()


class Poison:
    """A variable whose value after/before a symbolic loop is unknown"""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _no(self, *a, **k):
        raise Unsupported("use of loop variable %s without a loop contract" % object.__getattribute__(self, "_n"))

    __getattribute__ = lambda self, a: Poison._no(self) if a not in ("__class__",) else Poison
    __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = __eq__ = __lt__ = __le__ = \
        __gt__ = __ge__ = __getitem__ = __len__ = __iter__ = __index__ = _no
    __hash__ = object.__hash__


def subst_obj(x, mp, memo=None):
    """Deep substitution of index variables in a result value"""
    memo = {} if memo is None else memo
    if isinstance(x, Num):
        return Num(subst(x.p, mp), x.np_scalar)
    if isinstance(x, SBool):
        return SBool(substb(x.b, mp))
    if _isarr(x):
        return x.substituted(mp)
    if isinstance(x, tuple):
        return tuple(subst_obj(y, mp, memo) for y in x)
    if isinstance(x, list) and not isinstance(x, LoopList):
        return [subst_obj(y, mp, memo) for y in x]
    if isinstance(x, dict):
        return {k: subst_obj(v, mp, memo) for k, v in x.items()}
    if isinstance(x, SymSeq):
        return SymSeq(subst(x.n, mp), lambda i, x=x: subst_obj(x.fn(i), mp), x.kind)
    if isinstance(x, (int, float, str, type(None), types.FunctionType, type, types.ModuleType)):
        return x
    h = getattr(type(x), "__subst__", None)
    if h:
        return h(x, mp, memo)
    if id(x) in memo:
        return memo[id(x)]
    if hasattr(x, "__dict__") and getattr(type(x), "__module__", "").startswith("barotropic"):
        import copy
        y = object.__new__(type(x))
        memo[id(x)] = y
        for k, v in x.__dict__.items():
            y.__dict__[k] = v if k == "grid" else subst_obj(v, mp, memo)
        return y
    return x


class ForLoop:
    """Runtime of a transformed for loop (default loop contract: see generic handler below)"""

    def __init__(self, it, label, names, assigned, frame):
        self.label = label
        self.it = it
        self.names = names
        self.sym = False
        self.assigned = set(assigned)
        c = ctx()
        h = None
        if c is not None:
            for f in c.ex.loop_handlers:
                h = f(label, it, frame.f_locals)
                if h:
                    break
        seq = None
        if h is not None:
            self.sym = True
            self.h = h
        elif getattr(type(it), "_is_symseq", False):
            seq = it
        elif getattr(type(it), "_is_symarray", False):
            seq = it.as_seq()
        if h is None and seq is not None and seq.n.const() is None:
            if c.entails(T.le(seq.n, const(2))):
                # a short sequence: all its lengths are looked at
                n = 0 if c.decide(T.le(seq.n, ZERO)) else 1 if c.decide(T.eq(seq.n, T.ONE)) else 2
                self.native = iter([seq.fn(const(k)) for k in range(n)])
                return
            self.sym = True
            self.h = GenericFor(seq)
        elif h is None:
            self.native = iter(it)
            return
        self.entry = {k: v for k, v in frame.f_locals.items() if k in names or k in self.assigned}
        self.h.enter(self, label, self.entry, names, self.assigned)
        self.started = False

    def __iter__(self):
        return self

    def __next__(self):
        if not self.sym:
            return next(self.native)
        fr = sys._getframe(1)
        if not self.started:
            self.started = True
            if ctx().fork():
                return self.h.begin(self)
            self.h.exit(self)
            raise StopIteration
        env = {k: v for k, v in fr.f_locals.items()}
        self.h.end_body(self, env)
        raise PathEnd()

    def has(self, name):
        return name in self.entry or name in self.assigned

    def get(self, name):
        return self.h.head(self, name)

    def post(self, name):
        return self.h.post(self, name)


class GenericFor:
    """Default loop contract for `for x in <symbolic sequence>`

    Invariant: variables not assigned in the body are unchanged, every list gets exactly one
    element per iteration, which depends on the iteration's element only."""

    def __init__(self, seq):
        self.seq = seq

    def enter(self, L, label, env, names, carried):
        c = ctx()
        self.key = ("for", label, tuple(c.taken), c.pos)
        self.c = c

    def begin(self, L):
        self.i = fresh("it", "i")
        self.c.require(le(ZERO, self.i))
        self.c.require(lt(self.i, self.seq.n))
        self.pc0 = len(self.c.pc)
        self.lists = {}
        x = self.seq.fn(self.i)
        self.c.loop_epoch = _clock[0]()
        self.before = effects(L.entry.values())
        return x

    def head(self, L, name):
        v = L.entry.get(name)
        if isinstance(v, list):
            l = LoopList(name, self.i)
            self.lists[name] = (v, l)
            return l
        if name in L.assigned:
            return Poison(name)
        return v

    def end_body(self, L, env):
        no_effects(self.before, str(L.label))
        rec = {}
        for name, (v0, l) in self.lists.items():
            if env.get(name) is not l:
                # another object is bound to the name: nothing is known about it after the loop
                rec[name] = Poison
            elif len(l.appended) == 0:
                rec[name] = None
            else:
                rec[name] = tuple(l.appended)
        cond = band(*self.c.pc[self.pc0:])
        self.c.ex.shared.setdefault(self.key, {})[tuple(self.c.taken)] = (is_var(self.i), cond, rec)

    def exit(self, L):
        self.summary = list(self.c.ex.shared.get(self.key, {}).values())
        n = self.seq.n
        if not self.summary:
            # no iteration completes normally: the loop can only be left if it is empty
            self.c.require(T.eq(n, ZERO))
            return
        v = T.gfresh("q")
        conds = [substb(cond, {i: v}) for i, cond, rec in self.summary]
        allc = bor(*conds)
        if allc is not TRUE:
            self.c.require(T.forall([(v, n)], allc))

    def post(self, L, name):
        v = L.entry.get(name)
        if isinstance(v, list) and not self.summary:
            return v
        if isinstance(v, list):
            recs = [(i, cond, rec.get(name)) for i, cond, rec in self.summary if name in rec]
            if any(r[2] is Poison for r in recs):
                return Poison(name)
            if all(r[2] is None for r in recs):
                return v
            if any(r[2] is None for r in recs) or len(v) > 0 or len({len(r[2]) for r in recs}) > 1:
                raise Unsupported("conditional append in loop " + str(L.label))
            per = len(recs[0][2])

            def at(j, recs=recs):
                m = 0
                if per > 1:
                    # item m of iteration j
                    r = j - T.floor(j / const(per)) * per
                    j = T.floor(j / const(per))
                    m = next((q for q in range(per - 1) if ctx().decide(T.eq(r, const(q)))), per - 1)
                out = subst_obj(recs[-1][2][m], {recs[-1][0]: j})
                for i, cond, val in reversed(recs[:-1]):
                    out = merge(substb(cond, {i: j}), subst_obj(val[m], {i: j}), out)
                return out
            return SymSeq(self.seq.n * per, at)
        if name in L.assigned:
            return Poison(name)
        return v


class WhileLoop:
    def __init__(self, label, names, assigned, frame):
        self.label, self.names, self.assigned = label, names, set(assigned)
        self.sym = False
        c = ctx()
        self.entry = {k: v for k, v in frame.f_locals.items() if k in names}
        self.h = None
        if c is not None:
            for f in c.ex.while_handlers:
                h = f(label, self.entry)
                if h:
                    self.h = h
                    self.sym = True
                    h.enter(self, label, self.entry, names, self.assigned)
                    break
        self.count = 0

    def iterate(self):
        """Called at the loop head; True to run (another) iteration"""
        fr = sys._getframe(1)
        if self.sym:
            if self.count == 0:
                self.count = 1
                self.h.begin(self)
                return True
            self.h.end_body(self, dict(fr.f_locals))
            raise PathEnd()
        self.count += 1
        if self.count > 40:
            raise Unsupported("unbounded while loop without contract: %s" % self.label)
        return True

    def has(self, name):
        return name in self.entry

    def get(self, name):
        return self.h.head(self, name)


# -- builtins seen by the code under verification ----------------------------------------------------
def v_len(x):
    h = getattr(type(x), "__symlen__", None)
    if h:
        return h(x)
    if not isinstance(x, (str, bytes, list, tuple, dict, set, frozenset, range)):
        m = getattr(type(x), "__len__", None)
        if m is not None:
            r = m(x)
            return r
        raise TypeError("object of type '%s' has no len()" % type(x).__name__)
    return _bi.len(x)


def _ctypes(cls):
    return cls if isinstance(cls, tuple) else (cls,)


def v_isinstance(x, cls):
    h = getattr(type(x), "__isinstance__", None)
    if h is not None:
        # a value of unknown type: decided by predicates
        r = bor(*[tob(h(x, c.real if isinstance(c, VType) else c)) for c in _ctypes(cls)])
        return True if r is TRUE else False if r is FALSE else SBool(r)
    for c in _ctypes(cls):
        c2 = c
        if isinstance(c, VType):
            c = c.real
        if isinstance(x, Num):
            if c in (int, numbers.Integral):
                if x.p.sort == "i" and not x.np_scalar and not isinstance(x, FNum):
                    return True
                continue
            if c in (float, numbers.Real):
                if x.p.sort in ("r", "i") and (c is numbers.Real or x.p.sort == "r" or isinstance(x, FNum)):
                    return True
                continue
            if c is complex:
                if x.p.sort == "c":
                    return True
                continue
            if c in (numbers.Number, numbers.Complex, object):
                return True
            continue
        h = getattr(c2, "__vinstance__", None)
        if h is not None:
            if h(x):
                return True
            continue
        if isinstance(x, SBool):
            if c is bool:
                return True
            continue
        if isinstance(x, SymSeq):
            if (c is list and x.kind == "list") or (c is tuple and x.kind == "tuple"):
                return True
            import collections.abc as _abc
            if c in (_abc.Sequence, _abc.Iterable, _abc.Collection, _abc.Sized):
                return True
            continue
        if isinstance(c, type):
            if isinstance(x, c):
                return True
        else:
            raise Unsupported("isinstance against %r" % (c,))
    return False


class VType:
    """int/float/... as seen by the code: callable conversion plus isinstance target"""

    def __init__(self, real, conv):
        self.real = real
        self.conv = conv
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self.conv(*a, **k)

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)

    def __getattr__(self, k):
        return getattr(self.real, k)


def _conv_int(x=0, *a):
    if isinstance(x, Num) and x.np_scalar == NARROW:
        return Num(x.p)
    if isinstance(x, Num):
        return Num(ptrunc(x.p))
    if isinstance(x, SBool):
        return Num(ite(x.b, ONE, ZERO))
    if _isarr(x):
        return _conv_int(x.item())
    return int(x, *a)


def _conv_float(x=0.0):
    if isinstance(x, Num):
        return FNum(x.p) if x.p.sort == "i" or x.np_scalar == NARROW else x
    if _isarr(x):
        return _conv_float(x.item())
    if isinstance(x, SBool):
        return FNum(ite(x.b, ONE, ZERO))
    return float(x)


def _conv_bool(x=False):
    return truth(x)


def _conv_list(x=()):
    if isinstance(x, SymSeq):
        return SymSeq(x.n, x.fn, "list")
    if _isarr(x):
        return _conv_list(x.as_seq())
    h = getattr(type(x), "__symiter__", None)
    if h:
        return _conv_list(h(x))
    if hasattr(type(x), "__iter__") and not isinstance(x, (list, tuple, dict, str, types.GeneratorType, set)):
        y = type(x).__iter__(x)
        if isinstance(y, SymSeq):
            return SymSeq(y.n, y.fn, "list")
        return list(y)
    return list(x)


def _conv_tuple(x=()):
    r = _conv_list(x)
    return SymSeq(r.n, r.fn, "tuple") if isinstance(r, SymSeq) else tuple(r)


def v_iter(x):
    if isinstance(x, SymSeq):
        return SymIter(x)
    if _isarr(x):
        return v_iter(x.as_seq())
    return iter(x)


class SymIter(SymSeq):
    """iter() of a symbolic sequence; usable as an iterable again"""

    def __init__(self, seq):
        super().__init__(seq.n, seq.fn, "iter")

    def __next__(self):
        raise Unsupported("next() on a symbolic iterator")

    def __iter__(self):
        return self


def truth(x):
    if isinstance(x, SBool):
        return ctx().decide(x.b)
    if isinstance(x, Num):
        return ctx().decide(T.ne(x.p, ZERO))
    if isinstance(x, SymSeq):
        return ctx().decide(T.ne(x.n, ZERO))
    if _isarr(x):
        return x.truth()
    if isinstance(x, (bool, int, float, str, type(None), list, tuple, dict)):
        return bool(x)
    t = type(x)
    if "__bool__" in dir(t):
        return truth(t.__bool__(x))
    if hasattr(t, "__len__"):
        return truth(t.__len__(x))
    return True


def v_all(x):
    return _quant(x, True)


def v_any(x):
    return _quant(x, False)


def _quant(x, isall):
    if _isarr(x):
        return (x.all if isall else x.any)()
    if isinstance(x, SymSeq):
        v = fresh("q", "i")
        if x.part is not None:
            # by the index in the whole sequence
            n, start, at = x.part
            inside = band(ge(v, start), lt(v, start + x.n))
            r = generic_eval([(v, n)], lambda: SBool(tob(at(v))) if ctx().decide(inside) else SBool(TRUE if isall else FALSE))
            x = SymSeq(n, at)
        else:
            r = generic_eval([(v, x.n)], lambda: SBool(tob(x.fn(v))))
        if isall:
            return truth(SBool(T.forall([(v, x.n)], r.b)))
        return truth(SBool(bnot(T.forall([(v, x.n)], bnot(r.b)))))
    for y in x:
        t = truth(y)
        if t != isall:
            return not isall
    return isall


def v_max(*a, **k):
    return _ext(a, k, T.pmax, _bi.max, "max")


def v_min(*a, **k):
    return _ext(a, k, T.pmin, _bi.min, "min")


def _ext(a, k, f, real, name):
    if len(a) == 1:
        x = a[0]
        if _isarr(x):
            return getattr(x, name)()
        if isinstance(x, SymSeq):
            raise Unsupported(name + " of symbolic sequence")
        h = getattr(x, "__sym%s__" % name, None)
        if h:
            return h()
        a = list(x)
    if k or not any(isinstance(x, (Num, SBool)) or _isarr(x) for x in a):
        return real(a, **k)
    r = topoly(a[0])
    for x in a[1:]:
        r = f(r, topoly(x))
    return Num(r)


def v_abs(x):
    if isinstance(x, Num):
        return abs(x)
    return _bi.abs(x)


def v_round(x, nd=None):
    if isinstance(x, Num):
        return x.__round__(nd)
    if _isarr(x):
        raise Unsupported("round of array")
    return _bi.round(x) if nd is None else _bi.round(x, nd)


def v_sum(x, start=0):
    if _isarr(x):
        return x.sum(axis=0) if x.ndim == 1 else _nosup("sum of nd array")
    if isinstance(x, SymSeq):
        v = fresh("s", "i")
        e = generic_eval([(v, x.n)], lambda: x.fn(v))
        return Num(T.psum([(v, x.n)], topoly(e))) + start
    r = start
    for y in x:
        r = r + y
    return r


def _nosup(m):
    raise Unsupported(m)


def v_range(*a):
    if all(isinstance(x, int) for x in a):
        return _bi.range(*a)
    a = [topoly(x) for x in a]
    if len(a) == 1:
        start, stop, step = ZERO, a[0], ONE
    elif len(a) == 2:
        start, stop, step = a[0], a[1], ONE
    else:
        start, stop, step = a
    c = step.const()
    if c is None or c == 0:
        raise Unsupported("range with symbolic step")
    n = -T.floor((start - stop) / step) if True else None
    cx = ctx()
    if cx.decide(lt(n, ZERO)):
        n = ZERO
    return SymSeq(n, lambda i: Num(start + i * step), "range")


def v_zip(*its):
    seqs = []
    for x in its:
        if _isarr(x):
            x = x.as_seq()
        seqs.append(x)
    if not any(isinstance(x, SymSeq) for x in seqs):
        return _bi.zip(*seqs)
    c = ctx()
    n = None
    fs = []
    for x in seqs:
        if isinstance(x, SymSeq):
            m, f = x.n, x.fn
        else:
            h = getattr(x, "__symzip__", None)
            if h is None:
                x = list(x)
                m, f = const(len(x)), (lambda i, x=x: x[int(i.const())])
            else:
                m, f = h()
        if n is None or m is n:
            n = m
        elif m is not None and not c.entails(eq(m, n)):
            n = m if c.decide(lt(m, n)) else n
        fs.append(f)
    return SymSeq(n, lambda i: tuple(f(i) for f in fs), "zip")


def v_enumerate(x, start=0):
    if _isarr(x):
        x = x.as_seq()
    if isinstance(x, SymSeq):
        return SymSeq(x.n, lambda i: (Num(i + topoly(start)), x.fn(i)), "enumerate")
    return _bi.enumerate(x, start)


def v_map(f, *its):
    if len(its) == 1 and (isinstance(its[0], SymSeq) or _isarr(its[0])):
        x = its[0].as_seq() if _isarr(its[0]) else its[0]
        return x.map(f, "map")
    return _bi.map(f, *its)


def v_set(x=()):
    h = getattr(x, "__symset__", None)
    if h:
        return h()
    if isinstance(x, SymSeq):
        raise Unsupported("set of symbolic sequence")
    return _bi.set(x)


class HashVal(Num):
    pass


def v_hash(x):
    flat = []

    def go(y):
        if isinstance(y, tuple):
            flat.append(const(1000003 + len(y)))
            for z in y:
                go(z)
        elif isinstance(y, (Num, SBool, int, float, bool)):
            flat.append(topoly(y))
        elif isinstance(y, str):
            flat.append(const(_bi.hash(y) % (1 << 61)))
        elif y is None:
            flat.append(const(99991))
        else:
            h = getattr(type(y), "__symhash__", None) or type(y).__hash__
            r = h(y)
            flat.append(topoly(r))
    go(x)
    if all(p.const() is not None for p in flat) and not isinstance(x, tuple):
        return _bi.hash(x)
    return Num(T.app("hash%d" % len(flat), flat, "i"))


def v_hasattr(o, n):
    try:
        getattr(o, n)
    except AttributeError:
        return False
    return True


def v_divmod(a, b):
    return a // b, a % b


def v_print(*a, **k):
    pass


def v_sorted(x, **k):
    if isinstance(x, SymSeq) or _isarr(x):
        raise Unsupported("sorted of symbolic sequence")
    return _bi.sorted(x, **k)


def v_reversed(x):
    if _isarr(x):
        x = x.as_seq()
    if isinstance(x, SymSeq):
        return SymSeq(x.n, lambda i: x.fn(x.n - 1 - i), "iter")
    return _bi.reversed(x)


def v_str(x=""):
    return str(x)


def v_callable(x):
    if isinstance(x, VType):
        return True
    return _bi.callable(x)


V_INT = VType(int, _conv_int)
V_FLOAT = VType(float, _conv_float)
V_BOOL = VType(bool, _conv_bool)
V_LIST = VType(list, _conv_list)
V_TUPLE = VType(tuple, _conv_tuple)


class Star:
    """`*x` in a call, for a sequence x of symbolic length"""

    def __init__(self, seq):
        object.__setattr__(self, "seq", seq)

    def _no(self, *a, **k):
        raise Unsupported("call with a symbolic number of arguments")

    def __getattribute__(self, a):
        if a in ("seq", "__class__"):
            return object.__getattribute__(self, a)
        Star._no(self)

    __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = __eq__ = __lt__ = __le__ = \
        __gt__ = __ge__ = __getitem__ = __len__ = __iter__ = __index__ = _no
    __hash__ = object.__hash__


def star(x):
    return [Star(x)] if isinstance(x, SymSeq) and x.n.const() is None else x


class SymDict:
    """dict of a symbolic number of (key, value) pairs"""

    def __init__(self, pairs):
        self.pairs = pairs

    def __symlen__(self):
        raise Unsupported("len of a symbolic mapping")

    def _no(self, *a, **k):
        raise Unsupported("operation on a symbolic mapping")

    __getitem__ = __setitem__ = __iter__ = __contains__ = keys = values = items = get = update = pop = __or__ = _no

    def __subst__(self, mp, memo):
        return SymDict(subst_obj(self.pairs, mp))


def _conv_dict(*a, **k):
    if len(a) == 1 and isinstance(a[0], SymSeq) and a[0].n.const() is None:
        if k:
            raise Unsupported("dict of a symbolic sequence")
        return SymDict(a[0])
    return dict(*a, **k)


V_DICT = VType(dict, _conv_dict)


def make_builtins(importer):
    d = dict(vars(_bi))
    d.update({
        "len": v_len, "isinstance": v_isinstance, "int": V_INT, "float": V_FLOAT, "bool": V_BOOL, "list": V_LIST,
        "tuple": V_TUPLE, "all": v_all, "any": v_any, "max": v_max, "min": v_min, "abs": v_abs, "round": v_round,
        "sum": v_sum, "range": v_range, "zip": v_zip, "enumerate": v_enumerate, "map": v_map, "set": v_set,
        "hash": v_hash, "hasattr": v_hasattr, "divmod": v_divmod, "print": v_print, "iter": v_iter, "sorted": v_sorted,
        "reversed": v_reversed, "callable": v_callable,
        "__import__": importer, "open": None, "exec": None, "eval": None,
        "__truth__": truth, "__not__": lambda x: not_(x), "__for__": _for, "__while__": _while, "__comp__": comp,
        "__in__": contains, "__star__": star, "dict": V_DICT,
    })
    return d


def not_(x):
    if isinstance(x, SBool):
        return SBool(bnot(x.b)) if False else (not truth(x))
    return not truth(x)


def contains(x, coll, neg):
    h = getattr(coll, "__symcontains__", None)
    if h is not None:
        r = tob(h(x))
        return SBool(bnot(r) if neg else r)
    if isinstance(coll, (list, tuple)) and isinstance(x, Num):
        r = bor(*[tob(x == y) for y in coll])
        return SBool(bnot(r) if neg else r)
    return (x not in coll) if neg else (x in coll)


def _for(it, label, names, assigned):
    if hasattr(type(it), "__iter__") and not isinstance(it, (SymSeq, list, tuple, dict, str, range)) and not _isarr(it):
        m = type(it).__iter__
        if isinstance(m, types.FunctionType):
            it2 = m(it)
            if isinstance(it2, SymSeq):
                it = it2
    return ForLoop(it, label, names, assigned, sys._getframe(1))


def _while(label, names, assigned):
    return WhileLoop(label, names, assigned, sys._getframe(1))


def comp(kind, it, f, conds, fkey=None):
    if hasattr(type(it), "__iter__") and isinstance(type(it).__iter__, types.FunctionType) \
            and not isinstance(it, SymSeq) and not _isarr(it):
        it2 = type(it).__iter__(it)
        if isinstance(it2, SymSeq):
            it = it2
    if _isarr(it):
        it = it.as_seq()
    if isinstance(it, SymSeq) and it.n.const() is None:
        if conds:
            raise Unsupported("filtered comprehension over a symbolic sequence")
        if kind in ("list", "gen"):
            # evaluate once eagerly for an arbitrary element so that exceptions surface here
            v = fresh("cp", "i")
            if ctx().decide(T.ne(it.n, ZERO)):
                _probe(it, f, v)
            part = it.part and (it.part[0], it.part[1], lambda i: f(it.part[2](i)))
            return SymSeq(it.n, lambda i: f(it.fn(i)), "list" if kind == "list" else "iter", part)
        if kind == "dict":
            return SymDict(SymSeq(it.n, lambda i: f(it.fn(i))))
        raise Unsupported("%s comprehension over a symbolic sequence" % kind)

    def gen():
        for x in it:
            if all(truth(c(x)) for c in conds):
                yield f(x)
    if kind == "gen":
        return gen()
    if kind == "list":
        return list(gen())
    if kind == "set":
        return set(gen())
    if kind == "dict":
        return {k: v for k, v in gen()}


def _probe(it, f, v):
    class _Any:
        def __merge__(self, c, o):
            return self
    generic_eval([(v, it.n)], lambda: (f(it.fn(v)), _Any())[1])


# -- mechanical AST transform ---------------------------------------------------------------------
class Transform(ast.NodeTransformer):
    def __init__(self):
        self.stack = []
        self.n = 0
        self.locs = []

    def visit_Module(self, node):
        self.generic_visit(node)
        return node

    def _func(self, node):
        self.stack.append(node.name)
        names = set(a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs)
        if node.args.vararg:
            names.add(node.args.vararg.arg)
        if node.args.kwarg:
            names.add(node.args.kwarg.arg)
        names |= _stored(node.body)
        self.locs.append(names)
        node.body = [self.visit(x) for x in node.body]
        node.body = _flat(node.body)
        # decorators and defaults are executed unchanged
        self.locs.pop()
        self.stack.pop()
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = _flat([self.visit(x) for x in node.body])
        self.stack.pop()
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        node.test = _call("__truth__", node.test)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.test = _call("__truth__", node.test)
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        node.test = _call("__truth__", node.test)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call("__not__", node.operand), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return ast.copy_location(_call("__in__", node.left, node.comparators[0],
                                           ast.Constant(isinstance(node.ops[0], ast.NotIn))), node)
        return node

    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        if isinstance(g.target, ast.Name):
            args = ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
            wrap = lambda e: ast.Lambda(args, e)
        else:
            # tuple target: lambda __t: (lambda a, b: e)(*__t)   (nested targets are left native)
            if not all(isinstance(x, ast.Name) for x in getattr(g.target, "elts", [None])):
                return node
            inner = ast.arguments(posonlyargs=[], args=[ast.arg(x.id) for x in g.target.elts], kwonlyargs=[],
                                  kw_defaults=[], defaults=[])
            outer = ast.arguments(posonlyargs=[], args=[ast.arg("__t")], kwonlyargs=[], kw_defaults=[], defaults=[])
            wrap = lambda e: ast.Lambda(outer, ast.Call(ast.Lambda(inner, e), [ast.Starred(ast.Name("__t", ast.Load()),
                                                                                          ast.Load())], []))
        elt = node.elt if kind != "dict" else ast.Tuple([node.key, node.value], ast.Load())
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)):
            return node
        return ast.copy_location(_call("__comp__", ast.Constant(kind), g.iter, wrap(elt),
                                       ast.List([wrap(i) for i in g.ifs], ast.Load())), node)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    def visit_Starred(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = ast.copy_location(_call("__star__", node.value), node)
        return node

    def visit_For(self, node):
        if not self.locs:
            self.generic_visit(node)
            return node
        self.n += 1
        L = "__L%d" % self.n
        label = ".".join(self.stack) + "#for%d" % self.n
        used = _used(node.body) & self.locs[-1]
        stored = _stored(node.body)
        tgt = _stored([ast.Assign([node.target], ast.Constant(None))])
        self.generic_visit(node)
        names = sorted(used - tgt)
        head = [_getter(L, n, "get") for n in names]
        post = [_getter(L, n, "post") for n in sorted(set(names) | tgt)]
        setup = ast.Assign([ast.Name(L, ast.Store())], _call("__for__", node.iter, ast.Constant(label),
                           _strs(names), _strs(sorted((stored | tgt)))))
        v = "__v%d" % self.n
        body = head + [ast.Assign([node.target], ast.Name(v, ast.Load()))] + _flat(node.body)
        new = ast.For(ast.Name(v, ast.Store()), ast.Name(L, ast.Load()), body, post + _flat(node.orelse))
        for x in (setup, new):
            ast.copy_location(x, node)
        return [setup, new]

    def visit_While(self, node):
        if not self.locs:
            self.generic_visit(node)
            return node
        self.n += 1
        L = "__L%d" % self.n
        label = ".".join(self.stack) + "#while%d" % self.n
        used = (_used(node.body) | _used([ast.Expr(node.test)])) & self.locs[-1]
        stored = _stored(node.body)
        self.generic_visit(node)
        names = sorted(used)
        head = [_getter(L, n, "get") for n in names]
        setup = ast.Assign([ast.Name(L, ast.Store())], _call("__while__", ast.Constant(label), _strs(names),
                                                             _strs(sorted(stored))))
        test = ast.If(ast.UnaryOp(ast.Not(), _call("__truth__", node.test)), _flat(node.orelse) + [ast.Break()], [])
        it = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "iterate", ast.Load()), [], [])
        new = ast.While(it, head + [test] + _flat(node.body), [])
        for x in (setup, new):
            ast.copy_location(x, node)
        return [setup, new]


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out.extend(_flat(x))
        elif x is not None:
            out.append(x)
    return out


def _strs(xs):
    return ast.Tuple([ast.Constant(x) for x in xs], ast.Load())


def _call(n, *args):
    return ast.Call(ast.Name(n, ast.Load()), list(args), [])


def _getter(L, n, m):
    # if L.sym and L.has(n): n = L.m(n)
    cond = ast.BoolOp(ast.And(), [ast.Attribute(ast.Name(L, ast.Load()), "sym", ast.Load()),
                                  ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "has", ast.Load()),
                                           [ast.Constant(n)], [])])
    return ast.If(cond, [ast.Assign([ast.Name(n, ast.Store())],
                                    ast.Call(ast.Attribute(ast.Name(L, ast.Load()), m, ast.Load()),
                                             [ast.Constant(n)], []))], [])


def _walk_scope(nodes):
    for n in nodes:
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # targets are local to the comprehension
            continue
        yield from _walk_scope(ast.iter_child_nodes(n))


def _stored(body):
    out = set()
    for n in _walk_scope(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.FunctionDef):
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
    return out


def _used(body):
    out = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name):
                out.add(n.id)
    return out


_code = {}


def compiled(name):
    path = os.path.join(SRC, name.replace(".", "/") + ".py")
    src = open(path, encoding="utf8").read()
    key = (path, src)
    c = _code.get(key)
    if c is None:
        tree = ast.parse(src, path)
        tree = Transform().visit(tree)
        ast.fix_missing_locations(tree)
        c = _code[key] = compile(tree, path, "exec")
    return c


class Package:
    """One load of the code under verification, with dependency contracts in place of the libraries"""

    def __init__(self, stubs):
        self.stubs = stubs
        self.mods = {}
        self.builtins = make_builtins(self.importer)
        self.root = types.ModuleType("barotropic")
        self.root.__path__ = [SRC]
        self.mods["barotropic"] = self.root

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name == "barotropic" or name.startswith("barotropic."):
            base = name if level else name[len("barotropic"):].lstrip(".")
            if base == "":
                for f in fromlist or ():
                    if f == "*" or hasattr(self.root, f):
                        continue
                    if f == "__version__":
                        self.root.__version__ = _version()
                        continue
                    if os.path.exists(os.path.join(SRC, f + ".py")):
                        setattr(self.root, f, self.load(f))
                return self.root
            return self.load(base)
        if name in self.stubs:
            m = self.stubs[name]
            if not fromlist and "." in name:
                return self.stubs[name.split(".")[0]]
            return m
        top = name.split(".")[0]
        if top in ("numbers", "collections", "itertools", "functools", "datetime", "math", "operator", "warnings",
                   "types", "typing", "abc", "copy", "contextlib", "dataclasses", "enum", "__future__"):
            return __import__(name, globals, locals, fromlist, 0)
        raise Unsupported("import of %s has no dependency contract" % name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(SRC, name.replace(".", "/") + ".py")
        if not os.path.exists(path):
            raise Unsupported("module %s not found" % name)
        m = types.ModuleType("barotropic." + name)
        m.__package__ = "barotropic"
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        setattr(self.root, name, m)
        exec(compiled(name), m.__dict__)
        return m

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self.load(name)


def _version():
    import re
    m = re.search(r'__version__\s*=\s*["\']([^"\']+)', open(os.path.join(SRC, "__init__.py")).read())
    return m.group(1) if m else "0"


# -- exploration --------------------------------------------------------------------------------------
class Explorer:
    """Runs a unit on all feasible paths and collects its obligations"""

    def __init__(self, name, body, max_paths=400, seconds=300):
        self.name = name
        self.body = body
        self.max_paths = max_paths
        self.seconds = seconds
        self.shared = {}
        self.loop_handlers = []
        self.while_handlers = []
        self.restart = False
        self.obls = []
        self.paths = 0
        self.ends = 0
        self.notes = []

    def run(self):
        for attempt in range(12):
            self.restart = False
            self.obls, self.paths, self.ends, self.notes = [], 0, 0, []
            keep = self.shared.get("persist")
            self.shared = {} if keep is None else {"persist": keep}
            self._run()
            if not self.restart:
                return self
        raise Unsupported("loop invariant inference did not converge")

    def _run(self):
        t0 = time.time()
        script = []
        seen = set()
        while True:
            self.paths += 1
            if self.paths > self.max_paths or time.time() - t0 > self.seconds:
                raise Unsupported("path budget exhausted (%d paths)" % self.paths)
            T.reset_fresh()
            c = Ctx(self, script)
            old = _ctx[0]
            _ctx[0] = c
            S.EXTRA_INST[:] = [lambda hy, iv, c=c: threshold_axioms(c, iv)]
            self.loop_handlers, self.while_handlers = [], []
            try:
                self.body(c)
                self.ends += 1
            except PathEnd:
                pass
            finally:
                _ctx[0] = old
            for name, goal, hyps in c.obls:
                self.obls.append((name, goal, hyps, c))
            self.notes.extend(c.notes)
            tk = c.taken[:]
            while tk and tk[-1] is False:
                tk.pop()
            if not tk:
                break
            tk[-1] = False
            script = tk


def threshold_axioms(c, ivars):
    out = []
    for th in c.thresholds:
        out.extend(th.instances(ivars))
    return out
