"""The specification language shared by the proof (terms) and by the replay on the real code (floats).

In the concrete mode a comparison is three-valued: true, false, or too close to call (None) within the tolerance; a check
fails only on a definite false, an assumption holds only on a definite true (an equality: not definitely false)."""
import math
import numbers

import numpy as np

from . import terms as T
from .terms import R, B

TOL = [1e-6]


class Tri:
    __slots__ = ("v", "info")

    def __init__(self, v, info=""):
        self.v, self.info = v, info

    def __bool__(self):
        if self.v is None:
            raise Discard("too close to call")
        return bool(self.v)

    def __repr__(self):
        return "%s%s" % ({True: "true", False: "false", None: "borderline"}[self.v], (" " + self.info) if self.info else "")


class Discard(Exception):
    """The sampled input is outside the contract's precondition."""


def _symbolic(*xs):
    for x in xs:
        if isinstance(x, (R, B)):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object and any(isinstance(e, (R, B)) for e in x.flat):
            return True
        if isinstance(x, (list, tuple)) and _symbolic(*x):
            return True
    return False


def tri(x):
    if isinstance(x, Tri):
        return x
    if isinstance(x, np.ndarray):
        return Tri(bool(x.all()))
    return Tri(bool(x))


def val(x):
    """bool / B / Tri -> B or Tri depending on content"""
    return x


def _isB(xs):
    return any(isinstance(x, B) for x in xs)


def And(*xs):
    xs = _flat(xs)
    if _isB(xs):
        return T.and_(*[T.lift_b(_tb(x)) for x in xs])
    vs = [tri(x) for x in xs]
    for v in vs:
        if v.v is False:
            return v
    if any(v.v is None for v in vs):
        return Tri(None)
    return Tri(True)


def Or(*xs):
    xs = _flat(xs)
    if _isB(xs):
        return T.or_(*[T.lift_b(_tb(x)) for x in xs])
    vs = [tri(x) for x in xs]
    if any(v.v is True for v in vs):
        return Tri(True)
    if any(v.v is None for v in vs):
        return Tri(None)
    return Tri(False, " ".join(v.info for v in vs if v.info)[:300])


def Not(x):
    if isinstance(x, B):
        return T.not_(x)
    v = tri(x)
    return Tri(None if v.v is None else not v.v, v.info)


def Implies(a, b):
    if isinstance(a, (bool, np.bool_)) and not a:
        return True
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, B) or isinstance(b, B):
        return T.iff(_tb(a), _tb(b))
    a, b = tri(a), tri(b)
    if a.v is None or b.v is None:
        return Tri(None)
    return Tri(a.v == b.v, "(%s vs %s)" % (a.v, b.v))


def _tb(x):
    if isinstance(x, (B, R)):
        return T.lift_b(x)
    if isinstance(x, Tri):
        return T.TRUE if x.v is not False else T.FALSE
    return T.TRUE if x else T.FALSE


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out += _flat(x)
        else:
            out.append(x)
    return out


def _tol(a, b):
    return TOL[0] * (1 + max(abs(a), abs(b)))


def _f(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        return float(x.flat[0])
    return float(x)


def _ints(a, b):
    return isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer))


def le(a, b):
    if _symbolic(a, b):
        r = _s(a) <= _s(b) if isinstance(_s(a), R) else _s(b) >= _s(a)
        return r
    if _ints(a, b):
        return Tri(bool(a <= b), "%s <= %s" % (a, b))
    a, b = _f(a), _f(b)
    if a != a or b != b:
        return Tri(False, "nan")
    if math.isinf(a) or math.isinf(b):
        return Tri(a <= b)
    t = _tol(a, b)
    return Tri(True if a <= b - t or (a == b == 0) else None if a <= b + t else False, "%.10g <= %.10g" % (a, b))


def lt(a, b):
    if _symbolic(a, b):
        r = _s(a) < _s(b) if isinstance(_s(a), R) else _s(b) > _s(a)
        return r
    if _ints(a, b):
        return Tri(bool(a < b), "%s < %s" % (a, b))
    a, b = _f(a), _f(b)
    if a != a or b != b:
        return Tri(False, "nan")
    if math.isinf(a) or math.isinf(b):
        return Tri(a < b)
    t = _tol(a, b)
    return Tri(True if a < b - t else None if a <= b + t and not (a == b == 0) else False, "%.10g < %.10g" % (a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def _s(x):
    if isinstance(x, np.ndarray):
        assert x.size == 1
        x = x.flat[0]
    if isinstance(x, B):
        return T.bool_to_num(x)
    return x


def eq(a, b):
    """Equality of numbers, vectors/matrices (elementwise, shapes must agree) or anything else (==)."""
    sa = isinstance(a, (np.ndarray, list, tuple))
    sb = isinstance(b, (np.ndarray, list, tuple))
    if sa or sb:
        a2, b2 = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a2.shape != b2.shape:
            if a2.size == 1 and b2.size == 1:
                return eq(a2.flat[0], b2.flat[0])
            return Tri(False, "shapes %s and %s" % (a2.shape, b2.shape)) if not _symbolic(a, b) else T.FALSE
        return And(*[eq(x, y) for x, y in zip(a2.flat, b2.flat)])
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return bool(a == b)
    if isinstance(a, R) or isinstance(b, R):
        return T.eq(_s(a), _s(b)) if not (_inf(a) or _inf(b)) else T.FALSE
    if isinstance(a, B) or isinstance(b, B):
        return Iff(a, b) if not isinstance(a, numbers.Real) or isinstance(a, bool) else T.eq(_s(a), _s(b))
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, numbers.Real) and isinstance(b, numbers.Real) or isinstance(a, np.generic) or isinstance(b, np.generic):
        a, b = float(a), float(b)
        if a == b:
            return Tri(True)
        if a != a or b != b or math.isinf(a) or math.isinf(b):
            return Tri(False, "%r == %r" % (a, b))
        d = abs(a - b)
        return Tri(None if d <= _tol(a, b) else False, "%.10g == %.10g" % (a, b))
    return bool(a == b)


def _inf(x):
    return isinstance(x, float) and math.isinf(x)


def ne(a, b):
    return Not(eq(a, b))


def _fn(name, tf, mf):
    def f(*xs):
        if _symbolic(*xs):
            return tf(*[T.lift(_s(x)) for x in xs])
        return mf(*[_f(x) for x in xs])
    f.__name__ = name
    return f


def _safe_sqrt(x):
    return math.sqrt(x) if x >= 0 else (0.0 if x > -1e-9 else float("nan"))


sin = _fn("sin", T.sin, math.sin)
cos = _fn("cos", T.cos, math.cos)
tan = _fn("tan", T.tan, math.tan)
atan = _fn("atan", T.atan, math.atan)
asin = _fn("asin", T.asin, lambda x: math.asin(max(-1, min(1, x))))
atan2 = _fn("atan2", T.atan2, math.atan2)
sqrt = _fn("sqrt", T.sqrt, _safe_sqrt)
exp = _fn("exp", T.exp, math.exp)
log = _fn("log", T.log, math.log)
absv = _fn("abs", T.abs_, abs)
vmax = _fn("max", lambda *a: _fold(T.max_, a), max)
vmin = _fn("min", lambda *a: _fold(T.min_, a), min)
ceil = _fn("ceil", T.ceil, lambda x: float(math.ceil(x)))
floor = _fn("floor", T.floor, lambda x: float(math.floor(x)))
rnd = _fn("round", T.round_, lambda x: float(round(x)))
trunc = _fn("trunc", T.trunc, lambda x: float(math.trunc(x)))
sign = _fn("sign", T.sign, lambda x: float((x > 0) - (x < 0)))
power = _fn("power", T.power, lambda a, b: a ** b)


def _fold(f, a):
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


def clip(x, lo, hi):
    return vmin(vmax(x, lo), hi)


def ite(c, a, b):
    if isinstance(c, B):
        return T.ite(c, T.lift(_s(a)), T.lift(_s(b)))
    return a if bool(tri(c)) else b


def ntri(c):
    return c


def norm2(v):
    s = 0
    for x in np.asarray(v, dtype=object).flat:
        s = s + x * x
    return sqrt(s)


def dot(u, v):
    s = 0
    for x, y in zip(np.asarray(u, dtype=object).flat, np.asarray(v, dtype=object).flat):
        s = s + x * y
    return s


class _Pi:
    pass


def same_angle(a, b):
    """Equal up to whole turns."""
    return And(eq(sin(a - b), 0), eq(cos(a - b), 1))


def within(x, lo, hi):
    return And(le(lo, x), le(x, hi))


def is_int(x):
    if isinstance(x, R):
        return T.eq(x, T.floor(x))
    return Tri(abs(float(x) - round(float(x))) < 1e-9)
