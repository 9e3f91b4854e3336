"""What a harness sees: the same harness function runs symbolically (to decide
the property) and concretely (to replay a counterexample on unpatched code)."""
import math
import numbers
from fractions import Fraction


BIG = 10 ** 12


class AssumptionFailed(BaseException):
    pass


class Base:
    symbolic = False

    def __init__(self, case):
        self.case = case

    # convenience built on the primitives
    def nonzero(self, name, lo=-BIG, hi=BIG):
        x = self.real(name, lo, hi)
        self.assume(x != 0)
        return x

    def produced(self, name, hi=BIG):
        """A positive production amount; values within 1e-6 (2 ** -20, exact in binary) of one are exactly one
        (the code under test skips normalisation within 1e-14 of one)."""
        x = self.pos(name, hi)
        self.assume(self.any_of([x == 1, abs(x - 1) >= 2 ** -20]))
        return x

    def pos(self, name, hi=BIG):
        x = self.real(name, 0, hi)
        self.assume(x > 0)
        return x

    def same(self, label, actual, expected, path=""):
        """Structural equality; numbers are compared with tolerance/solver."""
        if isinstance(expected, dict) and isinstance(actual, dict):
            ka, ke = set(actual), set(expected)
            if ka != ke:
                self.check(label, False, "%s keys differ: extra %s missing %s" % (
                    path, sorted(map(str, ka - ke)), sorted(map(str, ke - ka))))
                return
            for k in expected:
                self.same(label, actual[k], expected[k], "%s[%r]" % (path, k))
            return
        if isinstance(expected, (list, tuple)) and isinstance(actual, (list, tuple)):
            if len(actual) != len(expected):
                self.check(label, False, "%s length %d != %d" % (path, len(actual), len(expected)))
                return
            for i, (a, e) in enumerate(zip(actual, expected)):
                self.same(label, a, e, "%s[%d]" % (path, i))
            return
        if self.isnum(expected) and self.isnum(actual):
            self.eq(label, actual, expected, path)
            return
        if self.isbool(expected) and self.isbool(actual):
            self.iff(label, actual, expected, path)
            return
        if self.isnum(expected) != self.isnum(actual):
            self.check(label, False, "%s %r instead of %r" % (path, actual, expected))
            return
        c = actual == expected
        if not isinstance(c, bool) and self.isbool(c):
            self.check(label, c, path)
            return
        c = bool(c)
        self.check(label, c, "" if c else "%s %r instead of %r" % (path, actual, expected))

    def isnum(self, x):
        return isinstance(x, numbers.Real) and not isinstance(x, bool)


class SymSource(Base):
    symbolic = True

    def __init__(self, engine, case):
        super().__init__(case)
        self.e = engine
        from . import engine as E
        import z3
        self.E, self.z3 = E, z3

    def _reg(self, name, kind, t):
        if name in self.e.inputs:
            raise RuntimeError("input %s declared twice" % name)
        self.e.inputs[name] = (kind, t)

    def real(self, name, lo=-BIG, hi=BIG):
        v = self.z3.Real(name)
        self._reg(name, "real", v)
        if lo is not None:
            self.e.add(v >= self.E.rv(self.E.frac(lo)))
        if hi is not None:
            self.e.add(v <= self.E.rv(self.E.frac(hi)))
        self._sign(name, lo, hi)
        return self.E.SymNum(v)

    def _sign(self, name, lo, hi):
        if lo is not None and lo >= 0:
            self.e.signs[name] = 1 if lo > 0 else 0.5
        elif hi is not None and hi <= 0:
            self.e.signs[name] = -1 if hi < 0 else -0.5

    def int(self, name, lo, hi):
        v = self.z3.Int(name)
        self._reg(name, "int", v)
        if lo is not None:
            self.e.add(v >= lo)
        if hi is not None:
            self.e.add(v <= hi)
        self._sign(name, lo, hi)
        return self.E.SymNum(self.z3.ToReal(v), None, True)

    def symbool(self, name):
        v = self.z3.Bool(name)
        self._reg(name, "bool", v)
        return self.E.SymBool(v)

    def bool(self, name):
        return bool(self.symbool(name))

    def choice(self, name, options):
        """A symbolic index, resolved by solver-driven case split."""
        options = list(options)
        v = self.z3.Int(name)
        self._reg(name, "int", v)
        self.e.add(self.z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if self.e.decide(v == i):
                return options[i]
        self.e.add(v == len(options) - 1)
        return options[-1]

    def text(self, name, options):
        """A symbolic string with the given possible values, split only where the code under test looks inside it."""
        if self.case.get("eager"):
            return self.choice(name, options)
        options = list(options)
        v = self.z3.Int(name)
        self._reg(name, "int", v)
        self.e.add(self.z3.And(v >= 0, v < len(options)))
        return self.E.SymStr(v, options)

    def members(self, name, n):
        """A symbolic subset of 0..n-1."""
        bits = []
        for i in range(n):
            v = self.z3.Bool("%s.%d" % (name, i))
            self._reg("%s.%d" % (name, i), "bool", v)
            bits.append(v)
        return self.E.SymSet(bits)

    def nonempty(self, s):
        return s.nonempty() if type(s) is self.E.SymSet else bool(s)

    def card(self, s):
        return s.card() if type(s) is self.E.SymSet else len(s)

    def assume(self, cond):
        t = self.E.as_z3_bool(cond) if not isinstance(cond, self.E.SymNum) else cond.n != 0
        t = self.z3.simplify(t)
        if self.z3.is_false(t):
            raise self.E.PathAbort("assumption")
        if not self.z3.is_true(t):
            self.e.add(t)
            self._learn(t)

    def _learn(self, t):
        """Record the sign of an input from an assumption of the form x > 0 or x != 0."""
        z3 = self.z3
        neg = z3.is_not(t)
        a = t.arg(0) if neg else t
        if a.num_args() != 2 or not z3.is_const(a.arg(0)) or a.arg(0).decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return
        if not (z3.is_rational_value(a.arg(1)) and a.arg(1).as_fraction() == 0):
            return
        name = a.arg(0).decl().name()
        old = self.e.signs.get(name)
        if z3.is_gt(a) and not neg or z3.is_le(a) and neg:
            self.e.signs[name] = 1
        elif z3.is_lt(a) and not neg or z3.is_ge(a) and neg:
            self.e.signs[name] = -1
        elif z3.is_eq(a) and neg and old is not None:
            self.e.signs[name] = 1 if old > 0 else -1

    def check(self, label, cond, detail=""):
        if cond is True:
            self.e.trivial[label] = self.e.trivial.get(label, 0) + 1
            return
        self.e.pending.append((label, self.E.as_z3_bool(cond), None, None))

    def iff(self, label, a, b, detail=""):
        self.e.pending.append((label, self.E.as_z3_bool(a) == self.E.as_z3_bool(b), None, None))

    def eq(self, label, a, b, detail=""):
        if a is b:
            self.check(label, True)
            return
        c = (a == b)
        if isinstance(c, bool):
            self.check(label, c, detail)
            return
        if isinstance(a, float) and not math.isfinite(a) or isinstance(b, float) and not math.isfinite(b):
            self.check(label, False, detail)
            return
        if not isinstance(c, self.E.SymBool):
            self.check(label, bool(c), detail)
            return
        L = self.E.SymNum.lift
        if L(a) is None or L(b) is None:
            self.check(label, False, detail)
            return

        def margin():
            return (abs(L(a) - b) > (abs(L(a)) + abs(L(b)) + 1) * Fraction(1, 10000)).t

        def relative():
            return (abs(L(a) - b) > (abs(L(a)) + abs(L(b))) * Fraction(1, 1000)).t
        self.e.pending.append((label, c.t, margin, relative))

    def le(self, label, a, b, detail=""):
        c = (a <= b)
        if isinstance(c, self.E.SymBool):
            L = self.E.SymNum.lift
            self.e.pending.append((label, c.t, lambda: (
                L(a) - b > (abs(L(a)) + abs(L(b)) + 1) * Fraction(1, 10000)).t, lambda: (
                L(a) - b > (abs(L(a)) + abs(L(b))) * Fraction(1, 1000)).t))
        else:
            self.check(label, bool(c), detail)

    def isbool(self, x):
        return isinstance(x, (bool, self.E.SymBool))

    def all_of(self, conds):
        return self.E.SymBool(self.z3.And([self.E.as_z3_bool(c) for c in conds]))

    def any_of(self, conds):
        return self.E.SymBool(self.z3.Or([self.E.as_z3_bool(c) for c in conds]))

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        L = self.E.SymNum.lift
        a, b = L(a), L(b)
        return self.E.SymNum(self.z3.If(c.t, a.term, b.term), None, a.isint and b.isint)

    def observe(self, label, value):
        self.e.observed.append((label, value))

    def cut(self, why):
        """Leave the claim: the path is not counted."""
        raise self.E.PathAbort(why)


class ConcreteSource(Base):
    def __init__(self, case, inputs, strict=None):
        super().__init__(case)
        self.inputs = inputs
        self.strict = strict      # label to be compared with relative tolerance only
        self.failures = []
        self.observed = []
        self.checked = 0

    def real(self, name, lo=None, hi=None):
        n, d = self.inputs.get(name, [1, 1])
        return float(Fraction(n, d))

    def int(self, name, lo=None, hi=None):
        return int(self.inputs.get(name, lo or 0))

    def symbool(self, name):
        return bool(self.inputs.get(name, False))

    bool = symbool

    def choice(self, name, options):
        return list(options)[self.inputs.get(name, 0)]

    text = choice

    def members(self, name, n):
        return {i for i in range(n) if self.inputs.get("%s.%d" % (name, i), False)}

    def nonempty(self, s):
        return bool(s)

    def card(self, s):
        return len(s)

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, label, cond, detail=""):
        self.checked += 1
        if not cond:
            self.failures.append([label, str(detail)[:500]])

    def iff(self, label, a, b, detail=""):
        self.check(label, bool(a) == bool(b), "%s %r vs %r" % (detail, a, b))

    def close(self, a, b, strict=False):
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return a == b
        if not (math.isfinite(a) and math.isfinite(b)):
            return False
        return abs(a - b) <= 1e-6 * ((0 if strict else 1) + abs(a) + abs(b))

    def eq(self, label, a, b, detail=""):
        self.check(label, self.close(a, b, label == self.strict), "%s got %r, expected %r" % (detail, a, b))

    def le(self, label, a, b, detail=""):
        self.check(label, a <= b or self.close(a, b, label == self.strict), "%s got %r, expected <= %r" % (detail, a, b))

    def isbool(self, x):
        return isinstance(x, bool) or type(x).__name__ == "bool_"

    def all_of(self, conds):
        return all(bool(c) for c in conds)

    def any_of(self, conds):
        return any(bool(c) for c in conds)

    def ite(self, c, a, b):
        return a if c else b

    def observe(self, label, value):
        self.observed.append((label, value))

    def cut(self, why):
        raise AssumptionFailed()
