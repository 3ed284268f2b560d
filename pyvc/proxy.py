"""What the code under verification sees as numpy, math and the builtins.

Arrays of reals are object arrays (SArr) whose elements are terms; every numpy function that can meet a term is given here
by its mathematical definition, element by element.  A numpy function outside this file that meets a term raises
Unsupported: the contract is then reported as not proved rather than assumed.
"""
import builtins
import itertools
import math
import operator
import types
from fractions import Fraction

import numpy as np

from . import terms as T
from .terms import R, B, Unsupported, lift, ZERO, ONE, is_num
from . import lazy


def is_sym(x):
    return isinstance(x, (R, B, SArr, lazy.Lazy, lazy.Masked))


def has_sym(x, depth=3):
    if isinstance(x, (R, B, SArr, lazy.Lazy, lazy.Masked)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, (R, B)) for e in x.flat)
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(e, depth - 1) for e in x)
    if depth and isinstance(x, dict):
        return any(has_sym(e, depth - 1) for e in x.values())
    return False


# ------------------------------------------------------------------------------------------------- scalar definitions

def s_sign_round(x):
    return T.round_(lift(x))


def _b(x):
    """A boolean term or Python bool of anything."""
    if isinstance(x, B):
        return x
    if isinstance(x, R):
        return T.not_(T.eq(x, ZERO))
    return bool(x)


def _inf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


def s_max(a, b):
    for x, y in ((a, b), (b, a)):
        if _inf(x):
            return x if x > 0 else y
    return T.max_(lift(a), lift(b))


def s_min(a, b):
    for x, y in ((a, b), (b, a)):
        if _inf(x):
            return x if x < 0 else y
    return T.min_(lift(a), lift(b))


def s_clip(x, lo, hi):
    if lo is not None and not (_inf(lo) and lo < 0):
        x = s_max(x, lo)
    if hi is not None and not (_inf(hi) and hi > 0):
        x = s_min(x, hi)
    return x


def s_and(a, b):
    return T.and_(_b(a), _b(b))


def s_or(a, b):
    return T.or_(_b(a), _b(b))


def s_abs(x):
    if _inf(x):
        return abs(x)
    return T.abs_(lift(x))


def s_isnan(x):
    return isinstance(x, float) and math.isnan(x)


def s_arctan2(y, x):
    return T.atan2(lift(y), lift(x))


def _l1(f):
    return lambda x: f(lift(x))


def _op(f):
    def g(a, b):
        return f(a, b)
    return g


_MAX = {"maximum": s_max, "minimum": s_min, "fmax": s_max, "fmin": s_min}
UF1 = {"negative": operator.neg, "positive": lambda x: x, "absolute": s_abs, "fabs": s_abs, "sqrt": _l1(T.sqrt),
       "sin": _l1(T.sin), "cos": _l1(T.cos), "tan": _l1(T.tan), "arcsin": _l1(T.asin), "arccos": _l1(T.acos),
       "arctan": _l1(T.atan), "exp": _l1(T.exp), "log": _l1(T.log), "floor": _l1(T.floor), "ceil": _l1(T.ceil),
       "trunc": _l1(T.trunc), "rint": _l1(T.round_), "sign": _l1(T.sign), "square": lambda x: lift(x) * lift(x),
       "deg2rad": lambda x: lift(x) * T.PI / 180, "radians": lambda x: lift(x) * T.PI / 180,
       "rad2deg": lambda x: lift(x) * 180 / T.PI, "degrees": lambda x: lift(x) * 180 / T.PI,
       "logical_not": lambda x: T.not_(_b(x)) if isinstance(_b(x), B) else not _b(x),
       "isnan": s_isnan, "isfinite": lambda x: not (isinstance(x, float) and (math.isnan(x) or math.isinf(x))),
       "isinf": _inf, "reciprocal": lambda x: ONE / lift(x), "conjugate": lambda x: x, "cbrt": None}
UF2 = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": operator.truediv,
       "true_divide": operator.truediv, "floor_divide": operator.floordiv, "remainder": operator.mod,
       "mod": operator.mod, "power": operator.pow, "float_power": operator.pow, "maximum": s_max, "minimum": s_min, "fmax": s_max, "fmin": s_min,
       "less": operator.lt, "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge,
       "equal": operator.eq, "not_equal": operator.ne, "logical_and": s_and, "logical_or": s_or,
       "bitwise_and": operator.and_, "bitwise_or": operator.or_, "logical_xor": operator.xor,
       "arctan2": s_arctan2, "hypot": lambda a, b: T.sqrt(lift(a) * lift(a) + lift(b) * lift(b))}
BOOLOPS = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
           "logical_not", "isnan", "isfinite", "isinf"}


def el(x):
    """Normalise an element for arithmetic: concrete numbers become terms, so that arithmetic is exact."""
    if isinstance(x, (R, B)):
        return x
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isinf(f) or math.isnan(f):
            return f
        return T.num(f)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer, Fraction)):
        return T.num(x)
    return x


def wrap(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a.view(SArr)
    return a


def tidy(a):
    """Native dtype for boolean / integer results that hold no terms."""
    if isinstance(a, np.ndarray) and a.dtype == object and a.size and all(isinstance(e, (bool, np.bool_)) for e in a.flat):
        return np.array(a, dtype=bool)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a.view(SArr)
    return a


def objarr(x):
    """Any array-like as an object ndarray of terms (or other objects)."""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = el(x[i])
        return out
    if isinstance(x, lazy.Lazy) or isinstance(x, (list, tuple)) and any(isinstance(e, lazy.Lazy) for e in x):
        raise Unsupported("this use of an array of unknown size")
    if isinstance(x, (R, B)) or not isinstance(x, (list, tuple)):
        if hasattr(x, "values") and hasattr(x, "iloc"):
            return objarr(x.values)
        out = np.empty((), dtype=object)
        out[()] = el(x)
        return out
    a = np.array([np.asarray(e) if isinstance(e, SArr) else e for e in x], dtype=object) if x else np.empty((0,), object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        e = a[i]
        if isinstance(e, np.ndarray) and e.ndim == 0:
            e = e.item()
        out[i] = el(e)
    return out


def elementwise(f, *xs):
    if any(hasattr(x, "__many__") for x in xs):
        xs = [lazy.Lazy((x.n,), x.at) if hasattr(x, "__many__") else x for x in xs]
    if any(isinstance(x, lazy.Masked) for x in xs):
        return lazy.masked(f, *xs)
    if any(isinstance(x, lazy.Lazy) for x in xs):
        return lazy.broadcast(f, *xs)
    for x in xs:
        if hasattr(x, "__each__"):              # a contract's own container
            if any(y is not x and np.ndim(y) for y in xs):
                raise Unsupported("arrays of different kinds")
            return x.__each__(lambda e: f(*[e if y is x else el(y) for y in xs]))
        if hasattr(x, "iloc"):                  # a column of a pandas frame keeps its kind
            import pandas as pd
            r = elementwise(f, *[y.values if hasattr(y, "iloc") else y for y in xs])
            return pd.Series(list(np.asarray(r, dtype=object)), index=x.index, name=x.name, dtype=object)
    arrs = [objarr(x) for x in xs]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    if shape == ():
        return f(*[a[()] for a in arrs])
    bs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = f(*[el(b[i]) for b in bs])
    return tidy(out)


_PYOP = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv,
         "floordiv": operator.floordiv, "mod": operator.mod, "pow": operator.pow, "lt": operator.lt, "le": operator.le,
         "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne, "and": operator.and_,
         "or": operator.or_, "xor": operator.xor}


def _hook_elementwise(name, self, other):
    n = name.strip("_")
    if n not in _PYOP:
        n = n[1:]
        return elementwise(lambda a, b: _PYOP[n](b, a), self, other)
    return elementwise(_PYOP[n], self, other)


T.HOOKS.elementwise = _hook_elementwise


def reduce_(f, a, axis=None, keepdims=False, empty=None):
    a = objarr(a)
    if axis is None:
        items = list(a.flat)
        if not items:
            if empty is None:
                raise ValueError("zero-size array to reduction operation has no identity")
            r = empty
        else:
            r = el(items[0])
            for e in items[1:]:
                r = f(r, el(e))
        if keepdims:
            out = np.empty((1,) * a.ndim, dtype=object)
            out[...] = r
            return tidy(out)
        return r
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = objarr(reduce_(f, a, ax, keepdims, empty))
        return tidy(a) if a.ndim else a[()]
    axis = axis % a.ndim
    m = np.moveaxis(a, axis, 0)
    out = np.empty(m.shape[1:], dtype=object)
    for i in np.ndindex(*m.shape[1:]):
        out[i] = reduce_(f, m[(slice(None),) + i], None, False, empty)
    if keepdims:
        return tidy(np.expand_dims(out, axis))
    return tidy(out) if out.ndim else out[()]


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **_):
    if isinstance(a, lazy.Lazy):
        return a.sum(axis)
    return reduce_(operator.add, a, axis, keepdims, empty=ZERO)


def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **_):
    return reduce_(operator.mul, a, axis, keepdims, empty=ONE)


def f_max(a, axis=None, out=None, keepdims=False, **_):
    if hasattr(a, "__many__"):
        return a.__symseq__("max")
    return reduce_(s_max, a, axis, keepdims)


def f_min(a, axis=None, out=None, keepdims=False, **_):
    if hasattr(a, "__many__"):
        return a.__symseq__("min")
    return reduce_(s_min, a, axis, keepdims)


def f_any(a, axis=None, out=None, keepdims=False, **_):
    if isinstance(a, lazy.Lazy):
        return a.any(axis)
    if hasattr(a, "__many__"):
        return a.some(True)
    return _pb(reduce_(s_or, elementwise(_b, a), axis, keepdims, empty=False))


def f_all(a, axis=None, out=None, keepdims=False, **_):
    if isinstance(a, lazy.Lazy):
        return a.all(axis)
    if hasattr(a, "__many__"):
        return a.some(False)
    return _pb(reduce_(s_and, elementwise(_b, a), axis, keepdims, empty=True))


def _pb(x):
    if isinstance(x, B) and x.kind == "const":
        return x.args[0]
    return x


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **_):
    if isinstance(a, lazy.Lazy):
        return a.mean(axis)
    o = objarr(a)
    n = o.size if axis is None else o.shape[axis]
    return f_sum(a, axis, keepdims=keepdims) / n


def f_argext(better, name):
    def f(a, axis=None, **_):
        if getattr(type(a), "__symseq__", None) is not None and axis is None:
            return a.__symseq__(name)
        items = list(objarr(a).flat)
        if axis is not None and objarr(a).ndim > 1:
            raise Unsupported("argmin with axis")
        if not items:
            raise ValueError("attempt to get argmin of an empty sequence")
        k = 0
        for i in range(1, len(items)):
            if better(items[i], items[k]):
                k = i
        return k
    return f


f_argmin = f_argext(lambda x, y: bool(x < y), "argmin")
f_argmax = f_argext(lambda x, y: bool(x > y), "argmax")


def f_dot(a, b, out=None):
    if lazily(a) or lazily(b):
        return lazy.dot(a, b)
    a, b = objarr(a), objarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(operator.mul, a, b)
    return _matmul(a, b) if b.ndim <= 2 else f_tensordot(a, b, axes=(a.ndim - 1, b.ndim - 2))


def _vdot(x, y):
    if len(x) != len(y):
        raise ValueError("shapes not aligned")
    r = ZERO
    for p, q in zip(x, y):
        r = r + el(p) * el(q)
    return r


def _matmul(a, b):
    a, b = objarr(a), objarr(b)
    if a.shape[-1] != (b.shape[0] if b.ndim == 1 else b.shape[-2]):
        raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
    if a.ndim == 1 and b.ndim == 1:
        return _vdot(a, b)
    if b.ndim == 1:
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = _vdot(a[i], b)
        return tidy(out)
    if a.ndim == 1:
        return tidy(_matmul(a[None, :], b)[0])
    if a.ndim == 2 and b.ndim == 2:
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = _vdot(a[i[0]], b[:, i[1]])
        return tidy(out)
    if b.ndim == 2:
        out = np.empty(a.shape[:-1] + (b.shape[1],), dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = _vdot(a[i[:-1]], b[:, i[-1]])
        return tidy(out)
    raise Unsupported("matmul of these ranks")


def f_matmul(a, b, out=None):
    if lazily(a) or lazily(b):
        return lazy.matmul(a, b)
    a, b = objarr(a), objarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: an operand does not have enough dimensions")
    if a.ndim <= 2 and b.ndim <= 2:
        return _matmul(a, b)
    if a.ndim == 1 or b.ndim == 1:
        raise Unsupported("matmul of these ranks")
    stack = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    p, q = np.broadcast_to(a, stack + a.shape[-2:]), np.broadcast_to(b, stack + b.shape[-2:])
    out = np.empty(stack + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(*stack):
        out[i] = np.asarray(_matmul(p[i], q[i]), dtype=object)
    return tidy(out)


def f_tensordot(a, b, axes=2):
    a, b = objarr(a), objarr(b)
    if isinstance(axes, int):
        ax_a, ax_b = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax_a, ax_b = axes
        ax_a = [ax_a] if isinstance(ax_a, int) else list(ax_a)
        ax_b = [ax_b] if isinstance(ax_b, int) else list(ax_b)
    ax_a = [x % a.ndim for x in ax_a]
    ax_b = [x % b.ndim for x in ax_b]
    ra = [i for i in range(a.ndim) if i not in ax_a]
    rb = [i for i in range(b.ndim) if i not in ax_b]
    A = np.transpose(a, ra + ax_a).reshape([a.shape[i] for i in ra] + [-1])
    Bm = np.transpose(b, ax_b + rb).reshape([-1] + [b.shape[i] for i in rb])
    sa, sb = A.shape[:-1], Bm.shape[1:]
    A2, B2 = A.reshape(-1, A.shape[-1]), Bm.reshape(Bm.shape[0], -1)
    out = np.empty((A2.shape[0], B2.shape[1]), dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = _vdot(A2[i[0]], B2[:, i[1]])
    out = out.reshape(sa + sb)
    return tidy(out) if out.ndim else out[()]


def f_where(c, *ab):
    if not ab:
        raise Unsupported("np.where with one argument")
    return elementwise(lambda p, x, y: (x if p else y) if isinstance(p, (bool, np.bool_)) else
                       T.ite(_b(p), lift(x), lift(y)), c, *ab)


def f_clip(a, a_min=None, a_max=None, out=None, **_):
    r = elementwise(s_clip, a, a_min, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def f_round(a, decimals=0, out=None):
    if decimals:
        raise Unsupported("round with decimals")
    return elementwise(_l1(T.round_), a)


def f_norm(x, ord=None, axis=None, keepdims=False):
    a = objarr(x)
    if axis is not None:
        m = np.moveaxis(a, axis, -1)
        o = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = f_norm(m[i], ord)
        return tidy(o) if o.ndim else o[()]
    items = [lift(e) for e in a.flat]
    if a.ndim > 1 and ord is not None:
        raise Unsupported("matrix norms")
    if ord is None or ord == 2:
        s = ZERO
        for e in items:
            s = s + e * e
        return T.sqrt(s)
    if ord == 1:
        s = ZERO
        for e in items:
            s = s + T.abs_(e)
        return s
    if isinstance(ord, float) and math.isinf(ord):
        return f_max([T.abs_(e) for e in items])
    raise Unsupported("norm of order %r" % (ord,))


def _cofactor(a, i, j):
    return np.delete(np.delete(a, i, 0), j, 1)


def f_det(a):
    a = objarr(a)
    n = a.shape[0]
    if n == 1:
        return lift(a[0, 0])
    s = ZERO
    for j in range(n):
        if isinstance(a[0, j], R) and not a[0, j].m:
            continue
        s = s + lift(a[0, j]) * f_det(_cofactor(a, 0, j)) * (1 if j % 2 == 0 else -1)
    return s


def f_inv(a):
    a = objarr(a)
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    d = f_det(a)
    if d.const() == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    if d.const() is None and bool(T.eq(d, ZERO)):
        raise np.linalg.LinAlgError("Singular matrix")
    di = ONE / d
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[j, i] = (f_det(_cofactor(a, i, j)) if n > 1 else ONE) * (1 if (i + j) % 2 == 0 else -1) * di
    return wrap(out)


def f_eig(a):
    raise Unsupported("eigenvalues of a symbolic matrix")


def f_linspace(a, b, num=50, **kw):
    if kw:
        raise Unsupported("linspace options")
    a, b = lift(a), lift(b)
    if isinstance(num, R) and num.const() is None:
        if num < 0:
            raise ValueError("Number of samples, %s, must be non-negative." % num)
        from .lazy import Lazy
        if num == 1:
            return wrap(objarr([a]))
        return Lazy((num,), lambda k: a + (b - a) * k / (num - 1))
    num = operator.index(num)
    if num == 1:
        return wrap(objarr([a]))
    return wrap(objarr([a + (b - a) * Fraction(i, num - 1) for i in range(num)]))


def f_arange(*args, **kw):
    if all(isinstance(x, (int, np.integer)) for x in args):
        return np.arange(*args, **{k: v for k, v in kw.items() if k == "dtype"})
    a = [lift(x) for x in args]
    start, stop, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
    from . import runtime
    if getattr(runtime.ENGINE[0].ctx, "lazy_shapes", False) and (stop - start).const() is None and step.const() == 1 \
            and all(x.is_int_valued() for x in (start, stop)):
        n = stop - start
        return lazy.Lazy((n if runtime.ENGINE[0].branch(T.le(ZERO, n)) else 0,), lambda k: start + k)
    out = []
    x = start
    up = T.sign_of(step)
    if up is None or up == 0:
        raise Unsupported("arange with a step of unknown sign")
    while bool(x < stop if up > 0 else x > stop):
        out.append(x)
        x = x + step
        if len(out) > 4000:
            raise Unsupported("unbounded arange")
    return wrap(objarr(out))


def f_fromfunction(f, shape, dtype=float, **kw):
    from . import runtime
    shape = tuple(shape)
    if any(isinstance(n, R) and n.const() is None for n in shape) and getattr(runtime.ENGINE[0].ctx, "lazy_shapes", False):
        return f(*[lazy.Lazy(shape, lambda *i, d=d: i[d]) for d in range(len(shape))], **kw)
    idx = np.indices(shape)
    return f(*[wrap(objarr(i)) for i in idx], **kw)


class f_vectorize:
    def __init__(self, f, otypes=None, **_):
        self.f = f

    def __call__(self, *a):
        return elementwise(self.f, *a)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, **_):
    return elementwise(lambda x, y: T.le(T.abs_(lift(x) - lift(y)), num_(atol) + num_(rtol) * T.abs_(lift(y))), a, b)


def num_(x):
    return lift(x)


def f_allclose(a, b, **kw):
    return f_all(f_isclose(a, b, **kw))


def f_array_equal(a, b, **_):
    a, b = objarr(a), objarr(b)
    if a.shape != b.shape:
        return False
    return f_all(elementwise(operator.eq, a, b))


def f_isin(a, b, **_):
    raise Unsupported("isin")


def f_outer(a, b):
    a, b = objarr(a).ravel(), objarr(b).ravel()
    return elementwise(operator.mul, a[:, None], b[None, :])


def f_diff(a, n=1, axis=-1):
    a = objarr(a)
    if n != 1 or a.ndim != 1:
        raise Unsupported("diff")
    return elementwise(operator.sub, a[1:], a[:-1])


def f_cross(a, b):
    a, b = objarr(a), objarr(b)
    if a.shape == (2,):
        return a[0] * b[1] - a[1] * b[0]
    raise Unsupported("cross")


def f_cumsum(a, axis=None, **_):
    a = objarr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum")
    out, s = [], ZERO
    for e in a:
        s = s + el(e)
        out.append(s)
    return wrap(objarr(out))


def f_sort(a, axis=-1, **_):
    a = list(objarr(a))
    return wrap(objarr(sh_sorted(a)))


def f_argsort(a, axis=-1, **_):
    a = list(objarr(a))
    return np.array(sh_sorted(range(len(a)), key=lambda i: a[i]))


def f_count_nonzero(a, **_):
    return f_sum(elementwise(lambda x: T.bool_to_num(_b(x)) if isinstance(_b(x), B) else int(_b(x)), a))


FUNCS = {"sum": f_sum, "prod": f_prod, "max": f_max, "amax": f_max, "min": f_min, "amin": f_min, "any": f_any,
         "all": f_all, "mean": f_mean, "average": f_mean, "argmin": f_argmin, "argmax": f_argmax, "dot": f_dot, "matmul": f_matmul,
         "inner": f_dot, "vdot": f_dot, "tensordot": f_tensordot, "where": f_where, "clip": f_clip, "round": f_round,
         "around": f_round, "round_": f_round, "linspace": f_linspace, "arange": f_arange, "isclose": f_isclose,
         "allclose": f_allclose, "array_equal": f_array_equal, "outer": f_outer, "fromfunction": f_fromfunction,
         "diff": f_diff, "cross": f_cross, "cumsum": f_cumsum, "sort": f_sort, "argsort": f_argsort,
         "count_nonzero": f_count_nonzero, "abs": lambda x: elementwise(s_abs, x),
         "isreal": lambda x: np.isreal(x) if isinstance(x, np.ndarray) and x.dtype != object else elementwise(lambda e: True, x), "real": lambda x: x,
         "nan_to_num": lambda x, **k: x}
LINALG = {"norm": f_norm, "inv": f_inv, "det": f_det, "eig": f_eig}
STRUCT = {"concatenate", "stack", "vstack", "hstack", "tile", "repeat", "reshape", "ravel", "transpose", "squeeze",
          "flip", "moveaxis", "swapaxes", "roll", "expand_dims", "shape", "size", "ndim", "copy", "diag", "broadcast_to",
          "atleast_1d", "atleast_2d", "append", "column_stack", "put", "delete", "insert", "fliplr", "flipud", "split",
          "array_split", "rot90", "take", "copyto", "zeros_like", "ones_like", "full_like", "diagonal", "trace", "meshgrid",
          "broadcast_arrays", "ndenumerate", "block", "dstack", "hsplit", "vsplit", "kron", "array_repr", "array_str", "shares_memory", "may_share_memory"}


def _plain(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, (SArr, R, B)) for e in x) and all(isinstance(e, (R, B)) or is_num(e) for e in x):
            return objarr(x)
        return type(x)(_plain(e) for e in x) if type(x) in (list, tuple) else x
    if isinstance(x, (R, B)):
        o = np.empty((), object)
        o[()] = x
        return o
    return x


def _rewrap(r):
    if isinstance(r, np.ndarray):
        return tidy(r) if r.dtype == object else r
    if isinstance(r, (list, tuple)):
        return type(r)(_rewrap(e) for e in r)
    return r


class SArr(np.ndarray):
    """An array of terms."""
    __array_priority__ = 2000

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        n = uf.__name__
        if n == "matmul":
            return _out(f_matmul(*inputs), out)
        if method == "__call__":
            if kw.get("where", True) is not True:
                raise Unsupported("ufunc with where")
            if n in UF1 and UF1[n] and len(inputs) == 1:
                r = elementwise(UF1[n], *inputs)
            elif n in UF2:
                r = elementwise(UF2[n], *inputs)
            elif n == "clip":
                r = f_clip(*inputs)
            else:
                raise Unsupported("numpy ufunc %s on symbolic arrays" % n)
            return _out(r, out)
        if method == "reduce":
            f = {"add": f_sum, "multiply": f_prod, "maximum": f_max, "minimum": f_min, "logical_or": f_any,
                 "logical_and": f_all}.get(n)
            if f:
                return f(inputs[0], axis=kw.get("axis", 0), keepdims=kw.get("keepdims", False))
        if method == "outer" and n in UF2:
            a, b = objarr(inputs[0]), objarr(inputs[1])
            return elementwise(UF2[n], a.reshape(a.shape + (1,) * b.ndim), b)
        raise Unsupported("numpy ufunc %s.%s on symbolic arrays" % (n, method))

    def __array_function__(self, func, types_, args, kwargs):
        n = func.__name__
        f = None
        if func.__module__ == "numpy.linalg":
            f = LINALG.get(n)
            if f is None:
                raise Unsupported("numpy.linalg.%s" % n)
            return f(*args, **kwargs)
        f = FUNCS.get(n)
        if f:
            return f(*args, **kwargs)
        if n in STRUCT:
            if n == "put":
                return func._implementation(args[0].view(np.ndarray), *args[1:], **kwargs)
            if n in ("zeros_like", "ones_like", "full_like"):
                kwargs.pop("dtype", None)
                r = np.empty(args[0].shape, dtype=object)
                r[...] = ZERO if n[0] == "z" else ONE if n[0] == "o" else el(args[1])
                return wrap(r)
            return _rewrap(func(*[_plain(a) for a in args], **{k: _plain(v) for k, v in kwargs.items()}))
        raise Unsupported("numpy.%s on symbolic arrays" % n)

    # -- item access
    def _idx(self, i):
        if isinstance(i, R):
            return operator.index(i)
        if isinstance(i, B):
            return bool(i)
        if isinstance(i, tuple):
            return tuple(self._idx(x) for x in i)
        if isinstance(i, np.ndarray) and i.dtype == object:
            if i.size and isinstance(i.flat[0], (B, bool, np.bool_)):
                return np.array([bool(e) for e in i.flat], dtype=bool).reshape(i.shape)
            return np.array([operator.index(e) for e in i.flat], dtype=int).reshape(i.shape)
        if isinstance(i, list):
            return [self._idx(x) for x in i]
        if isinstance(i, slice):
            f = lambda z: operator.index(z) if isinstance(z, R) else z
            return slice(f(i.start), f(i.stop), f(i.step))
        return i

    def __getitem__(self, i):
        return np.ndarray.__getitem__(self, self._idx(i))

    def __setitem__(self, i, v):
        i = self._idx(i)
        if isinstance(v, (list, tuple, np.ndarray)):
            v = objarr(v)
        else:
            v = el(v)
        np.ndarray.__setitem__(self, i, v)

    # -- in-place operators keep identity
    def _ip(self, f, o):
        r = elementwise(f, self, o)
        self.view(np.ndarray)[...] = objarr(r)
        return self

    def __iadd__(self, o):
        return self._ip(operator.add, o)

    def __isub__(self, o):
        return self._ip(operator.sub, o)

    def __imul__(self, o):
        return self._ip(operator.mul, o)

    def __itruediv__(self, o):
        return self._ip(operator.truediv, o)

    # -- methods
    def any(self, axis=None, **k):
        return f_any(self, axis)

    def all(self, axis=None, **k):
        return f_all(self, axis)

    def min(self, axis=None, **k):
        return f_min(self, axis)

    def max(self, axis=None, **k):
        return f_max(self, axis)

    def sum(self, axis=None, **k):
        return f_sum(self, axis)

    def mean(self, axis=None, **k):
        return f_mean(self, axis)

    def prod(self, axis=None, **k):
        return f_prod(self, axis)

    def argmin(self, axis=None, **k):
        return f_argmin(self, axis)

    def argmax(self, axis=None, **k):
        return f_argmax(self, axis)

    def dot(self, o, out=None):
        return f_dot(self, o)

    def clip(self, min=None, max=None, **k):
        return f_clip(self, min, max)

    def round(self, decimals=0, **k):
        return f_round(self, decimals)

    def astype(self, dtype, *a, **k):
        dtype = _dt(dtype)
        kind = np.dtype(dtype).kind
        if kind in "iu":
            r = elementwise(lambda x: T.trunc(lift(x)), self)
            if isinstance(r, np.ndarray) and all(isinstance(e, R) and e.is_const for e in r.flat):
                return np.array([int(e) for e in r.flat], dtype=dtype).reshape(r.shape)
            return r
        if kind == "b":
            return elementwise(_b, self)
        return self.copy()

    def tobytes(self, *a):
        return _Key(tuple(self.flat))
    tostring = tobytes

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(self):
        raise Unsupported("float() of a symbolic array outside the shims")

    def __contains__(self, x):
        return bool(f_any(elementwise(operator.eq, self, x)))

    def __deepcopy__(self, memo):
        c = self.copy()
        memo[id(self)] = c
        return c

    def item(self, *a):
        if a:
            return self.view(np.ndarray)[a if len(a) > 1 else a[0]]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.flat[0]

    def __matmul__(self, o):
        return f_matmul(self, o)

    def __rmatmul__(self, o):
        return f_matmul(o, self)


class _Key:
    def __init__(self, items):
        self.items = items

    def __hash__(self):
        return hash(("key", len(self.items)))      # whether two are the same is a question of values

    def __eq__(self, o):
        if not isinstance(o, _Key) or len(self.items) != len(o.items):
            return False
        return bool(T.and_(*[T.eq(lift(a), lift(b)) for a, b in zip(self.items, o.items)]))


def symbolic_key(k):
    if isinstance(k, tuple):
        return any(symbolic_key(x) for x in k)
    return isinstance(k, R) and not k.is_const or isinstance(k, _Key)


def key(k):
    """A dictionary key: numbers in it are compared by value."""
    if isinstance(k, _Key) or not isinstance(k, (R, tuple)) or isinstance(k, R) and k.is_const:
        return _Num(k) if isinstance(k, (int, float, R)) and not isinstance(k, bool) else k
    if isinstance(k, tuple):
        if symbolic_key(k):
            raise Unsupported("tuples of symbolic numbers as dictionary keys")
        return k
    return _Num(k)


def unkey(k):
    return k.items[0] if isinstance(k, _Num) else k


class _Num(_Key):
    def __init__(self, x):
        _Key.__init__(self, (x,))


def _out(r, out):
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not (isinstance(o, np.ndarray) and o.dtype == object):
            raise TypeError("cannot store symbolic result into a %s array" % getattr(o, "dtype", "?"))
        o.view(np.ndarray)[...] = objarr(r)
        return o
    return r


# ------------------------------------------------------------------------------------------------------------ the np shim

def lazily(x):
    return isinstance(x, lazy.Lazy) or isinstance(x, (list, tuple)) and any(isinstance(e, lazy.Lazy) for e in x)


def f_array(x, dtype=None, copy=True, **kw):
    if isinstance(x, types.GeneratorType):
        x = list(x)
    if lazily(x):
        r = lazy.aslazy(x)
        r = r.copy() if copy else r
        return r if dtype is None else r.astype(dtype)
    dtype = _dt(dtype)
    kind = None if dtype is None else np.dtype(dtype).kind
    if isinstance(x, SArr):
        r = x.copy() if copy else x
        return r if kind is None else r.astype(dtype)
    if not has_sym(x):
        try:
            a = np.array(x, **({} if dtype is None else {"dtype": dtype}))
        except (TypeError, ValueError, Unsupported):
            if kind in (None, "O", "f"):
                a = np.array(x, dtype=object)
            else:
                raise
        if a.dtype.kind == "f":
            return wrap(objarr(a))
        if a.dtype.kind == "O" and a.size and all(isinstance(e, R) or is_num(e) for e in a.flat):
            return wrap(objarr(a))
        return a
    o = wrap(objarr(x))
    if o.ndim == 0 and not isinstance(x, (R, B)):
        return o
    if kind in ("i", "u", "b"):
        return o.astype(dtype)
    if all(isinstance(e, (R, B)) or e is None or is_num(e) or isinstance(e, (float, bool)) for e in o.flat):
        return tidy(o)
    return np.array(o, dtype=object).view(np.ndarray)


def f_asarray(x, dtype=None, **kw):
    if isinstance(x, (np.ndarray, lazy.Lazy)) and dtype is None:
        return x
    return f_array(x, dtype)


def _dt(dtype):
    """The builtin type behind `int` / `float` as the code sees them."""
    return int if dtype is int_ else float if dtype is float_ else dtype


def _full(v):
    def f(shape, dtype=None, *a, **k):
        dtype = _dt(dtype)
        kind = "f" if dtype is None else np.dtype(dtype).kind
        from . import runtime
        if isinstance(shape, (tuple, list)) and runtime.ENGINE[0] is not None \
                and any(isinstance(x, R) and x.const() is None for x in shape):
            if hasattr(runtime.ENGINE[0].ctx, "symgrid"):
                return runtime.ENGINE[0].ctx.symgrid(tuple(shape), v)
            if getattr(runtime.ENGINE[0].ctx, "lazy_shapes", False):
                e = el(float(v))
                return lazy.Lazy(shape, lambda *i: e)
        if isinstance(shape, R) and shape.const() is None and getattr(runtime.ENGINE[0].ctx, "lazy_shapes", False):
            e = el(float(v))
            r = lazy.Lazy((shape,), lambda i: e)
            r.bumps = [] if v == 1 else None
            return r
        if isinstance(shape, R):
            shape = operator.index(shape)
        elif isinstance(shape, (tuple, list)):
            shape = tuple(operator.index(s) for s in shape)
        if kind in "iub":
            return np.full(shape, v, dtype=dtype)
        o = np.empty(shape, dtype=object)
        o[...] = el(float(v))
        return wrap(o)
    return f


def f_full(shape, v, dtype=None, **k):
    return _full(0)(shape) + v if dtype is None else np.full(shape, v, dtype=dtype)


def f_eye(n, m=None, k=0, dtype=None, **kw):
    if isinstance(n, R) and n.const() is None and m is None and k == 0:
        return lazy.eye(n)
    return wrap(objarr(np.eye(n, m, k)))


class _Random:
    """np.random as the code sees it: any use of it is a use of the process-wide generator."""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "RandomState":
            return _RandomState
        if GLOBAL_RANDOM[0] is not None:
            return GLOBAL_RANDOM[0](name)
        raise Unsupported("np.random.%s" % name)


class _RandomState:
    """Naming the class (annotations, isinstance) is harmless; making an unseeded generator is a global draw."""
    def __new__(cls, *a, **k):
        if GLOBAL_RANDOM[0] is not None:
            return GLOBAL_RANDOM[0]("RandomState")(*a, **k)
        raise Unsupported("np.random.RandomState()")


GLOBAL_RANDOM = [None]


LINALG_REAL = {n: getattr(np.linalg, n) for n in LINALG}


class _Linalg(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = LINALG.get(name)
        real = getattr(np.linalg, name)
        if f is None:
            return _guard(real, "linalg." + name)
        return f if real is LINALG_REAL[name] else real  # replaced by a contract


class _UFunc:
    """Ufunc facade: numpy's own on concrete integers/strings, the definition above otherwise."""

    def __init__(self, name, f, real):
        self.__name__, self.f, self.real = name, f, real

    def __call__(self, *a, **k):
        a2 = [list(x) if isinstance(x, types.GeneratorType) else x for x in a]
        if k.get("out") is not None:
            return _out(elementwise(self.f, *a2), k["out"])
        if len(a2) > self.real.nin:
            return _out(elementwise(self.f, *a2[:self.real.nin]), a2[self.real.nin])
        return elementwise(self.f, *a2)

    def reduce(self, a, axis=0, **k):
        return reduce_(self.f, a, axis, k.get("keepdims", False))

    def outer(self, a, b):
        a, b = objarr(a), objarr(b)
        return elementwise(self.f, a.reshape(a.shape + (1,) * b.ndim), b)


def _conc(x):
    """A concrete number / array that may be handed to the real numpy."""
    if isinstance(x, R):
        c = x.const()
        if c is not None:
            return int(c) if c.denominator == 1 else float(c)
    return x


def _guard(f, name):
    def g(*a, **k):
        if has_sym(a) or has_sym(k):
            a = tuple(_conc(x) for x in a)
            k = {n: _conc(x) for n, x in k.items()}
            if has_sym(a) or has_sym(k):
                raise Unsupported("numpy.%s on symbolic values" % name)
        return f(*a, **k)
    g.__name__ = name.split(".")[-1]
    return g


class NP(types.ModuleType):
    """The numpy module the code under verification imports."""

    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        d["pi"] = T.PI
        d["random"] = _Random()
        d["linalg"] = _Linalg("numpy.linalg")
        d["ndarray"] = np.ndarray
        for n in ("inf", "nan", "newaxis", "e", "float32", "float64", "int32", "int64", "uint8", "int8", "int16", "bool_", "integer", "floating",
                  "number", "dtype", "generic", "ndindex", "infty", "Inf", "s_", "ix_"):
            d[n] = getattr(np, n)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for n in ("float", "int", "bool", "object", "str"):
                d[n] = {"float": float, "int": int, "bool": bool, "object": object, "str": str}[n]
        d["array"] = f_array
        d["asarray"] = f_asarray
        d["asanyarray"] = f_asarray
        d["zeros"] = _full(0)
        d["ones"] = _full(1)
        d["empty"] = _full(0)
        d["full"] = f_full
        d["eye"] = f_eye
        d["identity"] = f_eye
        d["vectorize"] = f_vectorize
        d["nditer"] = np.nditer
        for n, f in UF1.items():
            if f:
                d[n] = _UFunc(n, f, getattr(np, n))
        for n, f in UF2.items():
            d[n] = _UFunc(n, f, getattr(np, n))
        d["abs"] = d["absolute"]
        for n, f in FUNCS.items():
            if n not in d:
                d[n] = f
        for n in STRUCT:
            d[n] = _struct(n)
        d["core"] = np.core
        d["ravel_multi_index"] = f_ravel_multi_index

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = getattr(np, name)
        if callable(real) and not isinstance(real, type):
            return _guard(real, name)
        return real


def f_ravel_multi_index(idx, dims, mode="raise", **kw):
    if not (has_sym(tuple(idx)) or has_sym(tuple(dims)) or any(isinstance(x, np.ndarray) and x.dtype == object for x in idx)):
        return np.ravel_multi_index(tuple(idx), tuple(dims), mode=mode, **kw)
    if mode not in ("raise", "clip"):
        raise Unsupported("ravel_multi_index mode")

    def one(*ks):
        tot = ZERO
        for i, n in zip(ks, dims):
            i = lift(i)
            if mode == "clip":
                i = s_clip(i, 0, n - 1)
            elif builtins.bool(T.or_(T.lt(i, ZERO), T.le(lift(n), i))):
                raise ValueError("invalid entry in coordinates array")
            tot = tot * n + i
        return tot
    return elementwise(one, *idx)


def _struct(n):
    real = getattr(np, n)

    def f(*a, **k):
        if lazily(a[0]):
            if n in ("diag", "squeeze", "transpose", "ravel", "reshape", "copy", "roll"):
                return (lazy.diag if n == "diag" else getattr(lazy.Lazy, n))(lazy.aslazy(a[0]), *a[1:], **k)
            if n in ("shape", "size", "ndim", "expand_dims", "broadcast_to", "tile", "repeat"):
                return getattr(lazy, n)(lazy.aslazy(a[0]), *a[1:], **k)
            if n == "concatenate":
                return lazy.concatenate(*a, **k)
            if n in ("zeros_like", "ones_like", "full_like"):
                v = ZERO if n[0] == "z" else ONE if n[0] == "o" else el(a[1])
                return lazy.Lazy(lazy.aslazy(a[0]).shape, lambda *i: v)
            raise Unsupported("numpy.%s of an array of unknown size" % n)
        if n in ("zeros_like", "ones_like", "full_like"):
            shp = objarr(a[0]).shape
            dt = _dt(k.get("dtype"))
            if dt is None and isinstance(a[0], np.ndarray) and a[0].dtype.kind in "iub":
                return real(*a, **k)
            if dt is not None and np.dtype(dt).kind in "iub":
                return np.full(shp, 0 if n[0] == "z" else 1 if n[0] == "o" else a[1], dtype=dt)
            return f_full(shp, ZERO if n[0] == "z" else ONE if n[0] == "o" else el(a[1]))
        if n == "put" and isinstance(a[0], SArr):
            return real(a[0].view(np.ndarray), *a[1:], **k)
        if n == "meshgrid":
            return _rewrap(real(*[objarr(x) for x in a], **k))
        a2 = [list(x) if isinstance(x, types.GeneratorType) else x for x in a]
        if has_sym(a2, 4) or has_sym(k, 4):
            return _rewrap(real(*[_plain(x) for x in a2], **{kk: _plain(v) for kk, v in k.items()}))
        r = real(*a2, **k)
        if isinstance(r, np.ndarray) and r.dtype.kind == "f":
            return wrap(objarr(r))
        return r
    f.__name__ = n
    return f


# ------------------------------------------------------------------------------------------------------------- math shim

class MATH(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        d = self.__dict__
        d["pi"] = T.PI
        d["inf"], d["nan"] = math.inf, math.nan
        for m, n in (("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("asin", "arcsin"), ("acos", "arccos"), ("exp", "exp"),
                     ("atan", "arctan"), ("sqrt", "sqrt"), ("log", "log"), ("fabs", "absolute"), ("radians", "radians"),
                     ("degrees", "degrees")):
            d[m] = (lambda f: lambda x, *a: f(x) if not a else _nolog())(UF1[n])
        d["atan2"] = s_arctan2
        d["hypot"] = UF2["hypot"]
        d["floor"] = lambda x: _toint(T.floor(lift(x)))
        d["ceil"] = lambda x: _toint(T.ceil(lift(x)))
        d["trunc"] = lambda x: _toint(T.trunc(lift(x)))
        d["pow"] = lambda a, b: lift(a) ** b
        d["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: T.le(
            T.abs_(lift(a) - lift(b)), s_max(lift(rel_tol) * s_max(T.abs_(lift(a)), T.abs_(lift(b))), abs_tol))
        d["isnan"] = s_isnan
        d["isinf"] = lambda x: _inf(x)
        d["isfinite"] = lambda x: isinstance(x, R) or math.isfinite(x)
        d["copysign"] = lambda a, b: T.ite(T.le(ZERO, lift(b)), T.abs_(lift(a)), -T.abs_(lift(a)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _guard(getattr(math, name), name)


def _nolog():
    raise Unsupported("log with a base")


def _toint(r):
    c = r.const()
    return int(c) if c is not None else r


# ------------------------------------------------------------------------------------------------------------- builtins

def sh_abs(x):
    if isinstance(x, np.ndarray):
        return elementwise(s_abs, x)
    return builtins.abs(x)


def sh_float(*a):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, R):
        return x
    if isinstance(x, B):
        return T.bool_to_num(x)
    if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
        return lift(x.flat[0])
    return float(x)


def sh_int(*a, **k):
    if a and isinstance(a[0], R):
        return _toint(T.trunc(a[0]))
    if a and isinstance(a[0], B):
        return T.bool_to_num(a[0])
    if a and isinstance(a[0], SArr) and a[0].size == 1:
        return _toint(T.trunc(lift(a[0].flat[0])))
    return int(*a, **k)


def sh_round(x, nd=None):
    if isinstance(x, SArr):
        return f_round(x, nd or 0)
    if isinstance(x, R):
        if nd:
            raise Unsupported("round with digits")
        return _toint(T.round_(x))
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def sh_bool(x=False):
    return builtins.bool(x)


_MISSING = object()


def _extreme(name, better):
    real = getattr(builtins, name)

    def f(*a, key=None, default=_MISSING):
        items = a[0] if len(a) == 1 else a
        if hasattr(items, "__symseq__"):
            return items.__symseq__(name, key)
        items = list(items)
        if not items:
            if default is not _MISSING:
                return default
            return real(items)
        if key is None and len(items) <= 12 and all(isinstance(x, R) or is_num(x) for x in items) \
                and any(isinstance(x, R) for x in items):
            r = items[0]
            for x in items[1:]:
                r = (s_max if name == "max" else s_min)(r, x)
            return r
        best = items[0]
        kb = key(best) if key else best
        for x in items[1:]:
            kx = key(x) if key else x
            if better(kx, kb):
                best, kb = x, kx
        return best
    f.__name__ = name
    return f


sh_max = _extreme("max", lambda x, y: builtins.bool(x > y))
sh_min = _extreme("min", lambda x, y: builtins.bool(x < y))


def sh_sum(xs, start=0):
    if hasattr(xs, "__many__"):
        return start + xs.sum()
    r = start
    for x in xs:
        r = r + x
    return r


def _quant(name, stop, comb):
    def f(xs):
        if hasattr(xs, "__many__"):
            return xs.some(stop)
        if isinstance(xs, np.ndarray):
            xs = list(xs)
        acc = []
        for x in xs:
            if isinstance(x, B):
                if x.kind == "const":
                    if x.args[0] is stop:
                        return _pb(comb(*acc, x))
                else:
                    acc.append(x)
            elif builtins.bool(x) is stop:
                if not acc:
                    return stop
                return _pb(comb(*acc, T.lift_b(stop)))
        return _pb(comb(*acc)) if acc else (not stop)
    f.__name__ = name
    return f


sh_any = _quant("any", True, T.or_)
sh_all = _quant("all", False, T.and_)


def sh_sorted(xs, key=None, reverse=False):
    if hasattr(xs, "__symseq__"):
        return xs.__symseq__("sorted", key, reverse)
    items = list(xs)
    out = []
    ks = []
    for x in items:                      # stable insertion sort; comparisons may fork the path
        k = key(x) if key else x
        i = len(out)
        while i > 0 and builtins.bool(k > ks[i - 1] if reverse else k < ks[i - 1]):
            i -= 1
        out.insert(i, x)
        ks.insert(i, k)
    return out


def sh_isinstance(x, cls):
    if isinstance(x, (R, B)):
        cs = cls if isinstance(cls, tuple) else (cls,)
        for c in cs:
            if isinstance(x, B):
                if c in (bool, int, np.bool_):
                    return True
            elif c in (float, np.floating, np.float64):
                if not x.is_int_valued():
                    return True
                if c is float and x.const() is None:
                    return True
            elif c in (int, np.integer):
                if x.is_int_valued():
                    return True
    return builtins.isinstance(x, cls)


class _Flt(type):
    def __instancecheck__(cls, x):
        return sh_isinstance(x, float)


class SymRange:
    """range(a, b) with an unknown number of elements: its extremes are known by their defining property, instantiated at
    the integers the contract names (c.at); any other use enumerates it, path by path."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def _real(self):
        return builtins.range(operator.index(self.lo) if isinstance(self.lo, R) else self.lo,
                              operator.index(self.hi) if isinstance(self.hi, R) else self.hi)

    def __iter__(self):
        return iter(self._real())

    def __len__(self):
        return len(self._real())

    def __getitem__(self, i):
        return self._real()[i]

    def __symlen__(self):
        return s_max(self.hi - self.lo, T.ZERO)

    def __contains__(self, x):
        return builtins.bool(T.and_(T.le(T.lift(self.lo), T.lift(x)), T.lt(T.lift(x), T.lift(self.hi))))

    def __symseq__(self, what, key=None, *a):
        from . import runtime
        eng = runtime.ENGINE[0]
        if what not in ("min", "max") or key is None or eng is None or eng.spec:
            raise Unsupported("%s of a range of unknown length" % what)
        if not eng.branch(T.lt(T.lift(self.lo), T.lift(self.hi))):
            raise ValueError("%s() arg is an empty sequence" % what)
        j = eng.ctx.int("arg" + what)
        eng.assume(T.and_(T.le(T.lift(self.lo), j), T.lt(j, T.lift(self.hi))))
        kj = key(j)
        for w in eng.ctx.instances:
            kw = key(w)
            inside = T.and_(T.le(T.lift(self.lo), w), T.lt(w, T.lift(self.hi)))
            eng.assume(T.implies(inside, T.le(kj, kw) if what == "min" else T.le(kw, kj)))
        return j


def sh_range(*a):
    if any(isinstance(x, R) and x.const() is None for x in a) and len(a) <= 2:
        return SymRange(*(a if len(a) == 2 else (0, a[0])))
    return builtins.range(*[operator.index(x) if isinstance(x, R) else x for x in a])


def sh_len(x):
    f = getattr(type(x), "__symlen__", None)
    return f(x) if f is not None else builtins.len(x)


SHIMS = {"abs": sh_abs, "round": sh_round, "max": sh_max, "min": sh_min, "sum": sh_sum,
         "any": sh_any, "all": sh_all, "sorted": sh_sorted, "range": sh_range}


class float_(float, metaclass=_Flt):
    """`float` as the code sees it."""
    def __new__(cls, *a):
        return sh_float(*a)


class _Int(type):
    def __instancecheck__(cls, x):
        return sh_isinstance(x, int)


class int_(int, metaclass=_Int):
    def __new__(cls, *a, **k):
        return sh_int(*a, **k)


def _seqtype(real):
    class Meta(type):
        def __instancecheck__(cls, x):
            return builtins.isinstance(x, real)

        def __subclasscheck__(cls, x):
            return builtins.issubclass(x, real)

        def __call__(cls, *a):
            if a and hasattr(a[0], "__many__"):
                return a[0].fixed()
            return real(*a)
    return Meta(real.__name__, (real,), {})


def sh_zip(*xs):
    xs = [runtime_many(x) for x in xs]
    if builtins.any(hasattr(x, "__many__") for x in xs):
        return xs[0].zip(*xs) if hasattr(xs[0], "__many__") else [x for x in xs if hasattr(x, "__many__")][0].zip(*xs)
    return builtins.zip(*xs)


def runtime_many(x):
    from . import runtime
    return runtime.many_of(x)


def sh_enumerate(xs, start=0):
    xs = runtime_many(xs)
    if hasattr(xs, "__many__"):
        return xs.enum(start)
    return builtins.enumerate(xs, start)


SHIMS["tuple"], SHIMS["list"] = _seqtype(tuple), _seqtype(list)
SHIMS["zip"], SHIMS["enumerate"] = sh_zip, sh_enumerate
SHIMS["float"] = float_
SHIMS["int"] = int_
SHIMS["isinstance"] = sh_isinstance
SHIMS["len"] = sh_len
NUMPY = NP()
NUMPY.__dict__.update({"int": int_, "float": float_, "bool": bool})
MATHM = MATH()
