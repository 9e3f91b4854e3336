"""Environment for the symbolic process: the C functions that would force a
proxy into a float are given symbolic models.  Nothing here is loaded in the
process that replays counterexamples."""
import builtins
import math
import sys

from . import engine as E
from .engine import SymNum, SymBool

_orig = {}


def _has_sym(*args):
    for a in args:
        if isinstance(a, (SymNum, SymBool)):
            return True
        if isinstance(a, (list, tuple)) and any(isinstance(x, (SymNum, SymBool)) for x in a):
            return True
    return False


def _log(x, *base):
    if not _has_sym(x, *base):
        return _orig["log"](x, *base)
    x = SymNum.lift(x)
    if bool(x <= 0):
        raise ValueError("math domain error")
    r = E.active().uf("log", x)
    if base:
        return r / _log(base[0])
    return r


def _sqrt(x):
    if not _has_sym(x):
        return _orig["sqrt"](x)
    if bool(x < 0):
        raise ValueError("math domain error")
    return E.sym_sqrt(x)


def _exp(x):
    if not _has_sym(x):
        return _orig["exp"](x)
    return E.active().uf("exp", x)


def _pow(x, y):
    if not _has_sym(x, y):
        return _orig["pow"](x, y)
    return x ** y


def _fabs(x):
    return abs(x) if _has_sym(x) else _orig["fabs"](x)


def _isnan(x):
    return False if _has_sym(x) else _orig["isnan"](x)


def _isinf(x):
    return False if _has_sym(x) else _orig["isinf"](x)


def _isfinite(x):
    return True if _has_sym(x) else _orig["isfinite"](x)


def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not _has_sym(a, b, rel_tol, abs_tol):
        return _orig["isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if bool(a == b):
        return True
    return bool(abs(a - b) <= _max(rel_tol * _max(abs(a), abs(b)), abs_tol))


def _max(a, b):
    return a if bool(a >= b) else b


def _fsum(xs):
    xs = list(xs)
    if not _has_sym(xs):
        return _orig["fsum"](xs)
    return sum(xs)


def _copysign(x, y):
    if not _has_sym(x, y):
        return _orig["copysign"](x, y)
    return abs(x) if bool(y >= 0) else -abs(x)


def _floor(x):
    return x.__floor__() if _has_sym(x) else _orig["floor"](x)


def _ceil(x):
    return x.__ceil__() if _has_sym(x) else _orig["ceil"](x)


def _trunc(x):
    return x.__trunc__() if _has_sym(x) else _orig["trunc"](x)


MATH = dict(log=_log, sqrt=_sqrt, exp=_exp, pow=_pow, fabs=_fabs, isnan=_isnan,
            isinf=_isinf, isfinite=_isfinite, isclose=_isclose, fsum=_fsum,
            copysign=_copysign, floor=_floor, ceil=_ceil, trunc=_trunc)


def _np_close1(a, b, rtol, atol):
    if not _has_sym(a, b, rtol, atol):
        return bool(_orig["np.isclose"](float(a), float(b), rtol=rtol, atol=atol))
    return bool(abs(a - b) <= atol + rtol * abs(b))


def _np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    import numpy as np
    if _object(a) or _object(b):
        if np.ndim(a) == 0 and np.ndim(b) == 0:
            return _np_close1(_item(a), _item(b), rtol, atol)
        aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        return np.array([_np_close1(x, y, rtol, atol) for x, y in zip(aa.ravel(), bb.ravel())])
    return _orig["np.isclose"](a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


def _np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    import numpy as np
    if _object(a) or _object(b):
        r = _np_isclose(a, b, rtol, atol)
        return bool(r) if not isinstance(r, np.ndarray) else all(r)
    return _orig["np.allclose"](a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


def _item(a):
    return a.item() if hasattr(a, "item") and not isinstance(a, SymNum) else a


def _object(a):
    if _has_sym(a):
        return True
    return getattr(a, "dtype", None) == object


def _array_ufunc(self, ufunc, method, *inputs, **kw):
    import numpy as np
    name = ufunc.__name__
    if method == "__call__" and name in ("isnan", "isinf"):
        return False
    if method == "__call__" and name == "isfinite":
        return True
    conv = []
    for i in inputs:
        if isinstance(i, (SymNum, SymBool)):
            a = np.empty((), dtype=object)
            a[()] = i
            conv.append(a)
        elif isinstance(i, np.ndarray) or not hasattr(i, "dtype"):
            conv.append(i)
        else:
            conv.append(i.item() if hasattr(i, "item") else i)
    r = getattr(ufunc, method)(*conv, **kw)
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r.item()
    return r


def install_math():
    for k, f in MATH.items():
        if k not in _orig:
            _orig[k] = getattr(math, k)
            setattr(math, k, f)
    SymNum.log = lambda self: _log(self)
    SymNum.sqrt = lambda self: _sqrt(self)
    SymNum.exp = lambda self: _exp(self)
    SymNum.fabs = lambda self: abs(self)
    SymNum.square = lambda self: self * self
    SymNum.sign = lambda self: (1 if bool(self > 0) else (-1 if bool(self < 0) else 0))
    SymNum.__array_ufunc__ = _array_ufunc


def install_numpy():
    import numpy as np
    for k, f in (("isclose", _np_isclose), ("allclose", _np_allclose)):
        key = "np." + k
        if key not in _orig:
            _orig[key] = getattr(np, k)
            setattr(np, k, f)


# -- builtins as seen by ocelot modules


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, SymNum) and not o.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, *a):
        if a and isinstance(a[0], SymNum):
            return SymNum(a[0].n, a[0].d, False)
        if a and hasattr(a[0], "symnum"):
            return cls(a[0].symnum)
        return float(*a)

    def __eq__(cls, o):
        return o is float or o is SymFloat

    def __hash__(cls):
        return hash(float)

    def __getattr__(cls, k):
        return getattr(float, k)


class SymFloat(metaclass=_FloatMeta):
    pass


SymFloat.__name__ = "float"


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, SymNum) and o.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, *a):
        if a and isinstance(a[0], SymNum):
            return a[0].__trunc__()
        if a and hasattr(a[0], "symnum"):
            return cls(a[0].symnum)
        return int(*a)

    def __eq__(cls, o):
        return o is int or o is SymInt

    def __hash__(cls):
        return hash(int)

    def __getattr__(cls, k):
        return getattr(int, k)


class SymInt(metaclass=_IntMeta):
    pass


SymInt.__name__ = "int"


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (str, E.SymStr))

    def __subclasscheck__(cls, c):
        return issubclass(c, str)

    def __call__(cls, *a, **kw):
        return str(*a, **kw)

    def __eq__(cls, o):
        return o is str or o is StrShadow

    def __hash__(cls):
        return hash(str)

    def __getattr__(cls, k):
        f = getattr(str, k)
        if not callable(f):
            return f
        return lambda *a, **kw: f(*[x.resolve() if isinstance(x, E.SymStr) else x for x in a], **kw)


class StrShadow(metaclass=_StrMeta):
    pass


StrShadow.__name__ = "str"


class _SetMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)

    def __call__(cls, *a):
        if a and type(a[0]) is E.SymSet:
            return a[0].copy()
        return cls.real(*a)

    def __eq__(cls, o):
        return o is cls.real or o is cls

    def __hash__(cls):
        return hash(cls.real)

    def __getattr__(cls, k):
        f = getattr(cls.real, k)
        if not callable(f) or not hasattr(E.SymSet, k):
            return f

        def method(first, *rest):
            syms = [x for x in (first,) + rest if type(x) is E.SymSet]
            if not syms:
                return f(first, *rest)
            if type(first) is not E.SymSet:
                first = E.SymSet(syms[0]._lift(first))
            return getattr(first, k)(*rest)
        return method


class SetShadow(metaclass=_SetMeta):
    real = set


class FrozenSetShadow(metaclass=_SetMeta):
    real = frozenset


SetShadow.__name__ = "set"
FrozenSetShadow.__name__ = "frozenset"


def install_ocelot_builtins():
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == "ocelot" or name.startswith("ocelot.")):
            mod.__dict__.setdefault("float", SymFloat)
            mod.__dict__.setdefault("int", SymInt)
            mod.__dict__.setdefault("str", StrShadow)
            mod.__dict__.setdefault("set", SetShadow)
            mod.__dict__.setdefault("frozenset", FrozenSetShadow)


def silence_logging():
    import logging
    logging.getLogger("ocelot").disabled = True
