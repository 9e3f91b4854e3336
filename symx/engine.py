"""Symbolic execution engine for the real (imported) Ocelot code.

The code under test is executed by the ordinary Python interpreter, but the
numbers it is given are the proxies defined here.  Every proxy carries a z3
term.  When control flow depends on a proxy (``bool(x > y)``) the engine asks
z3 which outcomes are feasible under the current path condition, follows one,
and queues the other.  Paths are explored by re-execution until none is left,
so the union of the path conditions is the whole input domain within the
stated bounds.  Assertions are collected as z3 formulas and discharged at the
end of each path: ``unsat`` of (path condition and not assertion) means that
the assertion holds for every value on that path.
"""
import math
import numbers
import random
import sys
import time
from fractions import Fraction

import z3

REL_TOL = 1e-6


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


class Inconclusive(BaseException):
    """The engine cannot continue this path soundly."""


class EngineStats(dict):
    KEYS = ("paths", "decisions", "queries", "discharged", "inconclusive",
            "concretised", "unknown")

    def __init__(self):
        super().__init__({k: 0 for k in self.KEYS})
        self["solver_s"] = 0.0

    def merge(self, other):
        for k, v in other.items():
            self[k] = self.get(k, 0) + v


def frac(x):
    """Python number -> Fraction; floats are read as the decimal they print as."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    return Fraction(repr(float(x)))


def rv(f):
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


ENGINE = None  # the active engine, if any


def active():
    if ENGINE is None:
        raise RuntimeError("symbolic value used outside a symbolic run")
    return ENGINE


def _from_numeric_library(depth=2):
    """Is the caller of the arithmetic operator pandas or numpy code?

    These libraries follow IEEE semantics (x/0 is nan or inf) where plain
    Python raises ZeroDivisionError."""
    f = sys._getframe(depth)
    while f is not None and "/symx/" in f.f_code.co_filename:
        f = f.f_back
    if f is None:
        return False
    fn = f.f_code.co_filename
    return "/pandas/" in fn or "/numpy/" in fn


# --------------------------------------------------------------------------
# Proxies


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return active().decide(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, as_z3_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, as_z3_bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.t == as_z3_bool(o))
        if SymNum.lift(o) is not None:
            return SymNum.lift(self) == o
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.t != as_z3_bool(o))
        if SymNum.lift(o) is not None:
            return SymNum.lift(self) != o
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "<SymBool>"


def _bool_as_number(name):
    """Arithmetic on a truth value (``sum(cond for ...)``): it counts as the number 0 or 1."""
    import operator
    right = name.startswith("__r")
    op = getattr(operator, "__" + name[3:] if right else name)

    def method(self, o):
        if SymNum.lift(o) is None:
            return NotImplemented
        me = SymNum.lift(self)
        return op(o, me) if right else op(me, o)
    return method


for _name in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
    for _r in ("", "r"):
        setattr(SymBool, "__%s%s__" % (_r, _name), _bool_as_number("__%s%s__" % (_r, _name)))
for _name in ("lt", "le", "gt", "ge"):
    setattr(SymBool, "__%s__" % _name, _bool_as_number("__%s__" % _name))
for _name in ("neg", "pos", "abs"):
    setattr(SymBool, "__%s__" % _name, (lambda n: lambda self: getattr(SymNum.lift(self), "__%s__" % n)())(_name))
SymBool.__xor__ = SymBool.__rxor__ = lambda self, o: SymBool(z3.Xor(self.t, as_z3_bool(o)))


def as_z3_bool(o):
    if isinstance(o, SymBool):
        return o.t
    return z3.BoolVal(bool(o))


class SymStr:
    """A string that is one of finitely many options; which one is an integer
    variable. Comparisons are terms; anything else (hashing, formatting, string
    methods) splits the path on the value."""
    __slots__ = ("v", "options", "_val")

    def __init__(self, v, options):
        self.v, self.options, self._val = v, tuple(options), None

    def resolve(self):
        if self._val is not None:
            return self._val
        eng = active()
        for i in range(len(self.options) - 1):
            if eng.decide(self.v == i):
                break
        else:
            i = len(self.options) - 1
        self._val = self.options[i]
        return self._val

    def _eq(self, o):
        if self._val is not None:
            return self._val == o if isinstance(o, str) else (isinstance(o, SymStr) and o._eq(self._val))
        if isinstance(o, SymStr):
            if o is self:
                return True
            ts = [z3.And(self.v == i, o.v == j) for i, a in enumerate(self.options)
                  for j, b in enumerate(o.options) if a == b]
        elif isinstance(o, str):
            ts = [self.v == i for i, a in enumerate(self.options) if a == o]
            if len(ts) == len(self.options):
                return True
        else:
            return False
        return SymBool(z3.Or(ts)) if ts else False

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        c = self._eq(o)
        return ~c if isinstance(c, SymBool) else not c

    def __hash__(self):
        return hash(self.resolve())

    def __bool__(self):
        c = self._eq("")
        return not bool(c)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return self.resolve()

    def __repr__(self):
        return repr(self.resolve())

    def __format__(self, spec):
        return format(self.resolve(), spec)

    def __add__(self, o):
        return self.resolve() + (o.resolve() if isinstance(o, SymStr) else o)

    def __radd__(self, o):
        return o + self.resolve()

    def __mod__(self, o):
        return self.resolve() % o

    def __contains__(self, o):
        return (o.resolve() if isinstance(o, SymStr) else o) in self.resolve()

    def __lt__(self, o):
        return self.resolve() < str(o)

    def __gt__(self, o):
        return self.resolve() > str(o)

    def __le__(self, o):
        return self.resolve() <= str(o)

    def __ge__(self, o):
        return self.resolve() >= str(o)

    def __len__(self):
        return len(self.resolve())

    def __iter__(self):
        return iter(self.resolve())

    def __getitem__(self, k):
        return self.resolve()[k]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.resolve(), name)


def _poly(n):
    return z3.simplify(n, som=True, flat=True)


class SymNum:
    """A real (or integer) valued symbolic number, kept as num/den, den > 0."""
    __slots__ = ("n", "d", "isint")
    __array_priority__ = 1000
    # make numpy scalars/arrays defer binary operators to us
    __array_ufunc__ = None

    def __init__(self, n, d=None, isint=False):
        self.n = n
        self.d = d  # None means 1
        self.isint = isint

    # -- helpers
    @property
    def term(self):
        if self.d is None:
            return self.n
        return self.n / self.d

    def _new(self, n, d, isint):
        if d is None and z3.is_rational_value(n):
            pass
        return SymNum(n, d, isint)

    @staticmethod
    def lift(o):
        """-> SymNum, a float nan/inf, or None when not a number."""
        if isinstance(o, SymNum):
            return o
        if isinstance(o, SymBool):
            return SymNum(z3.If(o.t, z3.RealVal(1), z3.RealVal(0)), None, True)
        if isinstance(o, (bool, int, float, Fraction)) or isinstance(o, numbers.Real):
            if isinstance(o, numbers.Integral):
                return SymNum(z3.RealVal(int(o)), None, True)
            if not isinstance(o, Fraction):
                fl = float(o)
                if math.isnan(fl) or math.isinf(fl):
                    return fl
            return SymNum(rv(frac(o)), None, False)
        return None

    def _arr(self, o, fn):
        import numpy as np
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return fn(o.item())
            out = np.empty(o.shape, dtype=object)
            for idx, v in np.ndenumerate(o):
                out[idx] = fn(v)
            return out
        return NotImplemented

    # -- arithmetic
    def __add__(self, o):
        s = self.lift(o)
        if s is None:
            return self._arr(o, lambda v: self + v)
        if isinstance(s, float):
            return s
        isint = self.isint and s.isint
        if self.d is None and s.d is None:
            return SymNum(self.n + s.n, None, isint)
        if self.d is not None and s.d is not None and self.d.eq(s.d):
            return SymNum(self.n + s.n, self.d, isint)
        if s.d is None:
            return SymNum(self.n + s.n * self.d, self.d, isint)
        if self.d is None:
            return SymNum(self.n * s.d + s.n, s.d, isint)
        return SymNum(self.n * s.d + s.n * self.d, self.d * s.d, isint)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return SymNum(-self.n, self.d, self.isint)

    def __pos__(self):
        return self

    def __sub__(self, o):
        s = self.lift(o)
        if s is None:
            return self._arr(o, lambda v: self - v)
        if isinstance(s, float):
            return -s
        return self + (-s)

    def __rsub__(self, o):
        s = self.lift(o)
        if s is None:
            return self._arr(o, lambda v: v - self)
        if isinstance(s, float):
            return s
        return s + (-self)

    def __mul__(self, o):
        s = self.lift(o)
        if s is None:
            return self._arr(o, lambda v: self * v)
        if isinstance(s, float):
            if math.isnan(s):
                return s
            if bool(self > 0):
                return s
            if bool(self < 0):
                return -s
            return float("nan")
        isint = self.isint and s.isint
        # simple cancellation keeps degrees low: (n/d) * d == n
        if self.d is not None and s.d is None and self.d.eq(s.n):
            return SymNum(self.n, None, isint)
        if s.d is not None and self.d is None and s.d.eq(self.n):
            return SymNum(s.n, None, isint)
        n = self.n * s.n
        if self.d is None:
            d = s.d
        elif s.d is None:
            d = self.d
        else:
            d = self.d * s.d
        return SymNum(n, d, isint)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        s = self.lift(o)
        if s is None:
            return self._arr(o, lambda v: self / v)
        if isinstance(s, float):
            return s if math.isnan(s) else SymNum(z3.RealVal(0))
        if bool(s == 0):
            if _from_numeric_library():
                if bool(self > 0):
                    return float("inf")
                if bool(self < 0):
                    return float("-inf")
                return float("nan")
            raise ZeroDivisionError("division by zero")
        return self * s.inverse()

    def __rtruediv__(self, o):
        s = self.lift(o)
        if s is None:
            return self._arr(o, lambda v: v / self)
        if isinstance(s, float):
            if math.isnan(s):
                return s
            if bool(self == 0):
                raise ZeroDivisionError("division by zero")
            return s if bool(self > 0) else -s
        return s.__truediv__(self)

    def inverse(self):
        """1/self; the caller has established self != 0."""
        one = z3.RealVal(1)
        num = self.d if self.d is not None else one
        n = z3.simplify(self.n)
        if z3.is_rational_value(n):
            f = n.as_fraction()
            inv = rv(1 / f)
            return SymNum(num * inv if self.d is not None else inv, None)
        r = sign_of(n, active().signs)
        if r in (1, 0.5) or r is None and active().decide(n > 0):
            return SymNum(num, n)
        return SymNum(-num, z3.simplify(-n))

    def __floordiv__(self, o):
        q = self / o
        if not isinstance(q, SymNum):
            return q
        return q.__floor__()

    def __rfloordiv__(self, o):
        q = o / self
        if not isinstance(q, SymNum):
            return q
        return q.__floor__()

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self.lift(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __floor__(self):
        if self.isint and self.d is None:
            return self
        return SymNum(z3.ToReal(z3.ToInt(self.term)), None, True)

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        if bool(self >= 0):
            return self.__floor__()
        return self.__ceil__()

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            # banker's rounding at ties
            fl = self.__floor__()
            diff = self - fl
            if bool(diff < Fraction(1, 2)):
                return fl
            if bool(diff > Fraction(1, 2)):
                return fl + 1
            half = SymNum(z3.ToReal(z3.ToInt(fl.term / 2)), None, True)
            return fl if bool(half * 2 == fl) else fl + 1
        sc = 10 ** nd
        return round(self * sc) / sc

    def __pow__(self, o, mod=None):
        if isinstance(o, numbers.Real) and not isinstance(o, SymNum):
            f = frac(o)
            if f.denominator == 1 and abs(f.numerator) <= 8:
                k = f.numerator
                r = SymNum(z3.RealVal(1), None, True)
                for _ in range(abs(k)):
                    r = r * self
                if k < 0:
                    if bool(self == 0):
                        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                    return r.inverse()
                return r
            if f == Fraction(1, 2):
                if bool(self < 0):
                    return active().uf("pow", self, o)
                return sym_sqrt(self)
        return active().uf("pow", self, o)

    def __rpow__(self, o):
        return active().uf("pow", o, self)

    def __abs__(self):
        r = sign_of(self.n, active().signs)
        if r is not None:
            return self if r >= 0 else -self
        return SymNum(z3.If(self.n >= 0, self.n, -self.n), self.d, self.isint)

    # -- comparisons
    def _cmp(self, o, op, infval):
        s = self.lift(o)
        if s is None:
            if op in ("==", "!="):
                r = self._arr(o, lambda v: (self == v) if op == "==" else (self != v))
                return r
            fn = {"<": lambda v: self < v, "<=": lambda v: self <= v,
                  ">": lambda v: self > v, ">=": lambda v: self >= v}[op]
            return self._arr(o, fn)
        if isinstance(s, float):
            if math.isnan(s):
                return op == "!="
            return infval(s)
        a, b = self.n, s.n
        if z3.is_rational_value(b) and b.numerator_as_long() == 0:
            r = sign_of(a, active().signs)
            if r is not None and (abs(r) != 0.5):
                return SymBool(z3.BoolVal({"<": r < 0, "<=": r <= 0, ">": r > 0, ">=": r >= 0,
                                           "==": r == 0, "!=": r != 0}[op]))
            if r is not None and ((r == 0.5 and op in ("<", ">=")) or (r == -0.5 and op in (">", "<="))):
                return SymBool(z3.BoolVal(op in (">=", "<=")))
        if self.d is None and s.d is None:
            pass
        elif self.d is not None and s.d is not None and self.d.eq(s.d):
            pass
        else:
            if s.d is not None:
                a = a * s.d
            if self.d is not None:
                b = b * self.d
        if op == "<":
            t = a < b
        elif op == "<=":
            t = a <= b
        elif op == ">":
            t = a > b
        elif op == ">=":
            t = a >= b
        elif op == "==":
            t = a == b
        else:
            t = a != b
        return SymBool(t)

    def __lt__(self, o):
        return self._cmp(o, "<", lambda s: s > 0)

    def __le__(self, o):
        return self._cmp(o, "<=", lambda s: s > 0)

    def __gt__(self, o):
        return self._cmp(o, ">", lambda s: s < 0)

    def __ge__(self, o):
        return self._cmp(o, ">=", lambda s: s < 0)

    def __eq__(self, o):
        return self._cmp(o, "==", lambda s: False)

    def __ne__(self, o):
        return self._cmp(o, "!=", lambda s: True)

    def __hash__(self):
        # Values used as keys must be told apart by __eq__ (which forks).
        return 0

    def __bool__(self):
        return active().decide(self.n != 0)

    # -- conversions
    def __float__(self):
        return active().concretise(self)

    def __int__(self):
        v = self.__trunc__()
        return active().enumerate_int(v)

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return active().enumerate_int(self)

    def __complex__(self):
        return complex(float(self))

    def is_integer(self):
        if self.isint:
            return True
        return bool(self == self.__floor__())

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Inconclusive("a symbolic number reached pickle")

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"


numbers.Real.register(SymNum)


class SymElement(SymNum):
    """A member of a symbolic set; used as a key it is told apart by value."""
    __slots__ = ()

    def __hash__(self):
        return hash(active().enumerate_int(self))


class SymSet:
    """A set of the numbers 0..n-1 whose members are decided by boolean terms.

    Set algebra and comparisons are terms; emptiness, size and iteration split
    the path (iteration only on the size: the members themselves are symbolic)."""
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = list(bits)

    @property
    def __class__(self):
        return set

    def _lift(self, o):
        if type(o) is SymSet:
            if len(o.bits) < len(self.bits):
                return o.bits + [z3.BoolVal(False)] * (len(self.bits) - len(o.bits))
            return o.bits
        bits = [z3.BoolVal(False)] * len(self.bits)
        for x in o:
            if isinstance(x, SymNum):
                bits = [z3.Or(b, x.term == i) for i, b in enumerate(bits)]
            elif isinstance(x, int) and 0 <= x < len(bits):
                bits[x] = z3.BoolVal(True)
            else:
                raise Inconclusive("a foreign element in a symbolic set")
        return bits

    def _zip(self, f, others):
        bits = self.bits
        for o in others:
            bits = [z3.simplify(f(a, b)) for a, b in zip(bits, self._lift(o))]
        return SymSet(bits)

    def union(self, *others):
        return self._zip(z3.Or, others)

    def intersection(self, *others):
        return self._zip(z3.And, others)

    def difference(self, *others):
        return self._zip(lambda a, b: z3.And(a, z3.Not(b)), others)

    def symmetric_difference(self, other):
        return self._zip(z3.Xor, [other])

    def _algebra(f):
        def op(self, o):
            return f(self, o) if isinstance(o, (set, frozenset)) else NotImplemented
        return op

    __or__ = __ror__ = _algebra(union)
    __and__ = __rand__ = _algebra(intersection)
    __sub__ = _algebra(difference)
    __xor__ = __rxor__ = _algebra(symmetric_difference)

    def __rsub__(self, o):
        return SymSet(self._lift(o)).difference(self)

    def _inplace(f):
        def op(self, *others):
            self.bits = f(self, *others).bits
        return op

    update = _inplace(union)
    intersection_update = _inplace(intersection)
    difference_update = _inplace(difference)
    symmetric_difference_update = _inplace(symmetric_difference)

    def add(self, x):
        self.update([x])

    def discard(self, x):
        self.difference_update([x])

    def clear(self):
        self.bits = [z3.BoolVal(False)] * len(self.bits)

    def issubset(self, o):
        return SymBool(z3.And([z3.Implies(a, b) for a, b in zip(self.bits, self._lift(o))]))

    def issuperset(self, o):
        return SymBool(z3.And([z3.Implies(b, a) for a, b in zip(self.bits, self._lift(o))]))

    def isdisjoint(self, o):
        return SymBool(z3.And([z3.Not(z3.And(a, b)) for a, b in zip(self.bits, self._lift(o))]))

    __le__ = issubset
    __ge__ = issuperset

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return SymBool(z3.And([a == b for a, b in zip(self.bits, self._lift(o))]))

    def __ne__(self, o):
        c = self == o
        return ~c if isinstance(c, SymBool) else True

    def __lt__(self, o):
        return self.issubset(o) & (self != o)

    def __gt__(self, o):
        return self.issuperset(o) & (self != o)

    def __hash__(self):
        return hash(tuple(b.hash() for b in self.bits))

    def nonempty(self):
        return SymBool(z3.Or(self.bits))

    def __bool__(self):
        return bool(self.nonempty())

    def card(self):
        return SymNum(z3.Sum([z3.RealVal(0)] + [z3.If(b, z3.RealVal(1), z3.RealVal(0)) for b in self.bits]), None, True)

    def __len__(self):
        return active().enumerate_int(self.card())

    def __contains__(self, x):
        if isinstance(x, SymNum):
            return bool(SymBool(z3.Or([z3.And(b, x.term == i) for i, b in enumerate(self.bits)])))
        if isinstance(x, int) and 0 <= x < len(self.bits):
            return bool(SymBool(self.bits[x]))
        return False

    def __iter__(self):
        n = len(self)
        before = z3.IntVal(0)
        counts = []
        for b in self.bits:
            counts.append(before)
            before = before + z3.If(b, 1, 0)
        for i in range(n):
            t = z3.RealVal(len(self.bits) - 1)
            for f in reversed(range(len(self.bits))):
                t = z3.If(z3.And(self.bits[f], counts[f] == i), z3.RealVal(f), t)
            yield SymElement(z3.simplify(t), None, True)

    def copy(self):
        return SymSet(self.bits)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SymSet(self.bits)

    def __repr__(self):
        return "<SymSet>"


def sym_sqrt(x):
    """Exact square root: fresh y >= 0 with y*y == x (caller: x >= 0)."""
    e = active()
    n = z3.simplify(x.term)
    if z3.is_rational_value(n):
        f = n.as_fraction()
        r = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if r[0] ** 2 == f.numerator and r[1] ** 2 == f.denominator:
            return SymNum(rv(Fraction(*r)))
    key = ("sqrt", n.get_id())
    if key in e.memo:
        return e.memo[key][0]
    y = z3.Real("sqrt!%d" % e.fresh())
    e.add(y >= 0)
    e.add(y * y * (x.d if x.d is not None else 1) == x.n)
    out = SymNum(y)
    e.memo[key] = (out, n)
    return out


# --------------------------------------------------------------------------
# Structural sign analysis: a sound shortcut that saves solver queries.
# Lattice: 1 (>0), 0.5 (>=0), 0 (==0), -0.5 (<=0), -1 (<0), None (unknown)


def sign_of(t, signs, depth=0):
    if z3.is_rational_value(t) or z3.is_int_value(t):
        f = t.as_fraction() if z3.is_rational_value(t) else t.as_long()
        return (f > 0) - (f < 0)
    if depth > 12 or not z3.is_app(t):
        return None
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
        return signs.get(t.decl().name())
    if k == z3.Z3_OP_TO_REAL:
        return sign_of(t.arg(0), signs, depth + 1)
    if k == z3.Z3_OP_UMINUS:
        r = sign_of(t.arg(0), signs, depth + 1)
        return None if r is None else -r
    if k == z3.Z3_OP_ADD:
        strict, dirn = False, 0
        for a in t.children():
            r = sign_of(a, signs, depth + 1)
            if r is None:
                return None
            if r == 0:
                continue
            d = 1 if r > 0 else -1
            if dirn and d != dirn:
                return None
            dirn = d
            strict = strict or abs(r) == 1
        return 0 if not dirn else (dirn if strict else dirn * 0.5)
    if k == z3.Z3_OP_MUL:
        res = 1
        for a in t.children():
            r = sign_of(a, signs, depth + 1)
            if r is None:
                return None
            if r == 0:
                return 0
            d = 1 if r > 0 else -1
            strict = abs(r) == 1 and abs(res) == 1
            res = (1 if res > 0 else -1) * d * (1 if strict else 0.5)
        return res
    if k == z3.Z3_OP_ITE:
        a = sign_of(t.arg(1), signs, depth + 1)
        b = sign_of(t.arg(2), signs, depth + 1)
        return a if a == b else None
    return None


# --------------------------------------------------------------------------
# Engine


class Finding:
    def __init__(self, kind, label, inputs, info="", strict=False):
        self.kind = kind          # "check" | "exception"
        self.label = label
        self.inputs = inputs
        self.info = info
        self.strict = strict      # visible only in relative terms

    def as_dict(self):
        return dict(kind=self.kind, label=self.label, inputs=self.inputs, info=self.info, strict=self.strict)


class Engine:
    def __init__(self, seed=1, timeout_ms=10000, domains=None):
        self.seed = seed
        self.timeout_ms = timeout_ms
        self.stats = EngineStats()
        self.labels = {}
        self.solver = None

    # -- one path
    def start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []           # decisions taken (bool)
        self.queued = []          # alternative prefixes discovered on this path
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.solver.set("random_seed", self.seed & 0x7FFFFFFF)
        self.model = None
        self.inputs = {}          # name -> (kind, z3 term / value)
        self.pending = []         # (label, exact z3 Bool, margin z3 Bool or None)
        self.observed = []        # (label, value)
        self.trivial = {}         # assertions that held without any symbolic value
        self.memo = {}
        self.signs = {}
        self.ufs = []
        self.has_uf = False
        self.incomplete = []
        self._fresh = 0

    def fresh(self):
        self._fresh += 1
        return self._fresh

    def add(self, t):
        self.solver.add(t)
        if self.model is not None:
            if not z3.is_true(self.model.eval(t, model_completion=True)):
                self.model = None

    def _check(self, *assumptions):
        t0 = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += time.perf_counter() - t0
        self.stats["queries"] += 1
        import os
        if os.environ.get("SLOWQ") and time.perf_counter() - t0 > 0.3:
            import traceback
            print("SLOW %.2f %s %s\n %s" % (time.perf_counter() - t0, r, [str(a)[:3000] for a in assumptions], "".join(traceback.format_stack(limit=6)[:-1])), file=sys.stderr)
        if r == z3.unknown:
            r = self._retry(assumptions)
        return r

    def _retry(self, assumptions):
        """A second opinion from the nonlinear-real tactic."""
        s = z3.Then("simplify", "purify-arith", "solve-eqs", "qfnra-nlsat").solver() if False else z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", self.timeout_ms)
        for a in self.solver.assertions():
            s.add(a)
        for a in assumptions:
            s.add(a)
        t0 = time.perf_counter()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats["solver_s"] += time.perf_counter() - t0
        self.stats["queries"] += 1
        if r == z3.sat:
            self._alt_model = s.model()
        if r == z3.unknown:
            self.stats["unknown"] += 1
        else:
            self._alt = s
        self._last_alt = s if r == z3.sat else None
        return r

    def _get_model(self):
        alt = getattr(self, "_last_alt", None)
        if alt is not None:
            self._last_alt = None
            return alt.model()
        return self.solver.model()

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort("infeasible")
            if r == z3.unknown:
                raise Inconclusive("solver unknown on path condition")
            self.model = self._get_model()
        return self.model

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.stats["decisions"] += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.solver.add(cond if v else z3.Not(cond))
            self.model = None
            return v
        m = self.ensure_model()
        mv = m.eval(cond, model_completion=True)
        if z3.is_true(mv):
            v = True
        elif z3.is_false(mv):
            v = False
        else:
            # model does not determine it (algebraic numbers): ask
            r = self._check(cond)
            if r == z3.sat:
                v = True
                self.model = self._get_model()
            elif r == z3.unsat:
                v = False
            else:
                raise Inconclusive("solver unknown on a branch")
        other = z3.Not(cond) if v else cond
        r = self._check(other)
        if r == z3.unsat:
            pass                      # implied; record so re-execution agrees
        else:
            # sat, or unknown (explore it: infeasible paths are cut later)
            self.queued.append(self.trace + [not v])
        self.trace.append(v)
        self.pos += 1
        self.prefix = self.trace
        self.solver.add(cond if v else z3.Not(cond))
        return v

    def enumerate_int(self, x):
        """Resolve an integer proxy to a Python int by solver-driven case split."""
        t = z3.simplify(x.term)
        if z3.is_rational_value(t):
            return int(t.as_fraction())
        while True:
            # values proposed must be reproducible on re-execution: use the
            # smallest feasible value strategy only when fresh
            key = len(self.trace)
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                # the proposed value is stored in front of the decision
                assert isinstance(v, tuple), v
                val, taken = v
                self.pos += 1
                self.trace.append(v)
                c = t == val
                self.solver.add(c if taken else z3.Not(c))
                self.model = None
                if taken:
                    return val
                continue
            m = self.ensure_model()
            mv = m.eval(t, model_completion=True)
            val = int(z3.simplify(mv).as_fraction())
            c = t == val
            self.stats["decisions"] += 1
            if self._check(z3.Not(c)) != z3.unsat:
                self.queued.append(self.trace + [(val, False)])
            self.trace.append((val, True))
            self.pos += 1
            self.prefix = self.trace
            self.solver.add(c)
            return val

    def concretise(self, x):
        t = z3.simplify(x.term)
        if z3.is_rational_value(t):
            return float(t.as_fraction())
        m = self.ensure_model()
        mv = z3.simplify(m.eval(t, model_completion=True))
        f = z3_to_fraction(mv)
        self.stats["concretised"] += 1
        self.incomplete.append("concretised")
        self.add(t == rv(f))
        return float(f)

    def uf(self, name, *args):
        """Uninterpreted real function (log, exp, ...)."""
        ts = []
        for a in args:
            s = SymNum.lift(a)
            if not isinstance(s, SymNum):
                return float("nan")
            ts.append(z3.simplify(s.term))
        self.has_uf = True
        for (nm, ats, res) in self.ufs:
            if nm == name and len(ats) == len(ts) and all(
                    self._same(p, q) for p, q in zip(ats, ts)):
                return SymNum(res)
        f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(ts) + 1)))
        res = f(*ts)
        if name == "log":
            for (nm, ats, other) in self.ufs:
                if nm == "log":
                    self.add(z3.And(z3.Implies(ats[0] < ts[0], other < res),
                                    z3.Implies(ats[0] > ts[0], other > res)))
            self.add(z3.And(z3.Implies(ts[0] > 1, res > 0), z3.Implies(ts[0] < 1, res < 0),
                            z3.Implies(ts[0] == 1, res == 0)))
        elif name == "exp":
            for (nm, ats, other) in self.ufs:
                if nm == "exp":
                    self.add(z3.And(z3.Implies(ats[0] < ts[0], other < res),
                                    z3.Implies(ats[0] > ts[0], other > res)))
            self.add(z3.And(res > 0, z3.Implies(ts[0] == 0, res == 1)))
        self.ufs.append((name, ts, res))
        return SymNum(res)

    @staticmethod
    def _same(p, q):
        return p.eq(q) or z3.is_true(z3.simplify(p == q, som=True))

    # -- end of path
    def finish(self):
        """Discharge the assertions of the path; returns list of findings."""
        out = []
        for k, v in self.trivial.items():
            self.labels[k] = self.labels.get(k, 0) + v
            self.stats["trivial"] = self.stats.get("trivial", 0) + v
        todo = []
        for label, exact, margin, relative in self.pending:
            self.labels[label] = self.labels.get(label, 0) + 1
            s = z3.simplify(exact, som=True)
            if z3.is_true(s):
                self.stats["discharged"] += 1
                continue
            todo.append((label, exact, margin, relative))
        if not todo:
            # still has to be a feasible path for the record
            return out
        if len(todo) > 1:
            r = self._check(z3.Not(z3.And([t[1] for t in todo])))
            if r == z3.unsat:
                self.stats["discharged"] += len(todo)
                return out
        for label, exact, margin, relative in todo:
            r = self._check(z3.Not(exact))
            if r == z3.unsat:
                self.stats["discharged"] += 1
                continue
            neg, strict = z3.Not(exact), False
            if margin is not None:
                # an inequality too small to matter in floating point is no violation:
                # ask for a visible one, absolute or (for small values) relative
                neg = margin()
                guess = self.guess(neg)
                if guess is not None:
                    out.append(Finding("check", label, guess))
                    continue
                r = self._check(neg)
                if r == z3.unsat:
                    neg, strict = relative(), True
                    r = self._check(neg)
                if r == z3.unsat:
                    self.stats["discharged"] += 1
                    continue
            if r == z3.sat:
                out.extend(self.candidates(label, neg, strict))
            else:
                self.stats["inconclusive"] += 1
                self.incomplete.append("unknown:" + label)
        return out

    def guess(self, neg):
        """Cheap search for a model of ``neg`` on this path: the inputs are pinned
        to small integers where the path condition allows it."""
        rnd = random.Random(self.seed)
        for attempt in range(6):
            s = z3.Solver()
            s.set("timeout", 1500)
            for a in self.solver.assertions():
                s.add(a)
            s.add(neg)
            soft = []
            for name, (kind, t) in self.inputs.items():
                if kind == "real":
                    lo = -9 if self.signs.get(name) is None and attempt % 2 else 1
                    soft.append(t == rnd.choice([v for v in range(lo, 10) if v not in (0, 1)]))
            t0 = time.perf_counter()
            r = s.check(*soft)
            self.stats["queries"] += 1
            self.stats["solver_s"] += time.perf_counter() - t0
            if r == z3.sat:
                return self.assignment(s.model())
        return None

    def nice_models(self, extra=(), limit=3):
        """Input assignments satisfying the path condition, preferring short
        binary fractions (exact as floats)."""
        out = []
        reals = [t for k, t in self.inputs.values() if k == "real"]
        self._last_alt = None
        for step in (1, 8):
            if not reals:
                break
            s = z3.Solver()
            s.set("timeout", 3000)
            s.set("random_seed", self.seed & 0x7FFFFFFF)
            for a in self.solver.assertions():
                s.add(a)
            for e in extra:
                s.add(e)
            for t in reals:
                s.add(z3.IsInt(t * step))
            t0 = time.perf_counter()
            r = s.check()
            self.stats["queries"] += 1
            self.stats["solver_s"] += time.perf_counter() - t0
            if r == z3.sat:
                out.append(self.assignment(s.model()))
                if len(out) >= limit:
                    return out
                break
        if self._check(*extra) == z3.sat:
            out.append(self.assignment(self._get_model()))
        return out

    def candidates(self, label, neg, strict=False):
        return [Finding("check", label, a, strict=strict) for a in self.nice_models((neg,))]

    def assignment(self, model):
        res = {}
        for name, (kind, t) in self.inputs.items():
            v = z3.simplify(model.eval(t, model_completion=True))
            if kind == "bool":
                res[name] = z3.is_true(v)
            elif kind == "int":
                res[name] = int(z3_to_fraction(v))
            else:
                f = z3_to_fraction(v)
                res[name] = [f.numerator, f.denominator]
        return res


def z3_to_fraction(v):
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return v.as_fraction() if z3.is_rational_value(v) else Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.as_fraction()
    raise Inconclusive("model value is not a number: %s" % v)
