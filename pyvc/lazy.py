"""Arrays of unknown size, and sums over an unknown number of terms.

A Lazy array is its shape (integers or integer terms) and the function giving its element at given indices; the numpy
operations met by the code are given by their definitions on these functions.

A sum of n terms is the application Sum(d, n, body), the body being the summand at the bound integer `bound!d` (d: how many
sums enclose it).  Sums are linear: factors without the bound integer are taken out and the monomials are summed apart.
What is known of a sum is one rule, used by solve.sum_lemmas: if the summand is nowhere positive (except maybe at one named
position), the sum is at most zero (at most that summand).  A path condition may not depend on a bound integer
(runtime refuses the branch), so what holds at the bound integer holds at every position."""
import operator

import numpy as np

from . import terms as T
from . import runtime
from .terms import R, B, Unsupported, lift, ZERO, ONE

DEPTH = [0]


def bound(d):
    return T.var("bound!%d" % d, True)


def is_bound(name):
    return isinstance(name, str) and name.startswith("bound!")


def _dep(i, name):
    """Does atom i depend on the (free) variable name?"""
    return name in T.free_vars(T._atom_term(T._ATOMS[i]))


def total(n, f):
    """Sum of f(k) over 0 <= k < n."""
    c = n if isinstance(n, int) else lift(n).const()
    if c is not None:
        r = ZERO
        for k in range(int(c)):
            r = r + f(lift(k))
        return r
    d = DEPTH[0]
    DEPTH[0] += 1
    try:
        body = lift(f(bound(d)))
    finally:
        DEPTH[0] -= 1
    return linear(d, n, body)


def linear(d, n, body):
    name = "bound!%d" % d
    groups = {}
    for mm, co in body.m.items():
        inside = tuple(x for x in mm if _dep(x[0], name))
        outside = tuple(x for x in mm if x not in inside)
        groups.setdefault(inside, {})[outside] = co
    out = ZERO
    for inside, rest in groups.items():
        out = out + T.mul(R(dict(rest)), T.uf("Sum", T.num(d), lift(n), R({inside: T.F1})))
    return out


def sum_atoms(t):
    """Ids of the Sum atoms at the top level of a term's monomials."""
    return [i for mm in t.m for i, e in mm if T._ATOMS[i].kind == "uf" and T._ATOMS[i].name == "Sum"]


def _ATOM(i):
    return T._atom_term(T._ATOMS[i])


def has_sum(t):
    return T.has_fn(t, ("Sum",))


class Lazy:
    __array_ufunc__ = None
    __array_priority__ = 5000
    __hash__ = object.__hash__

    def __init__(self, shape, f):
        self.shape = tuple(int(x) if isinstance(x, (int, np.integer)) else int(x.const()) if x.const() is not None else x for x in shape)
        self.f = f

    @property
    def f(self):
        return self._f

    @f.setter
    def f(self, f):
        self._f, self.bumps = f, None           # bumps: [(position, amount)] over the constant one (see repeat)

    ndim = property(lambda self: len(self.shape))
    dtype = np.dtype(object)

    @property
    def size(self):
        n = 1
        for k in self.shape:
            n = n * k
        return n

    @property
    def T(self):
        return Lazy(self.shape[::-1], lambda *i: self.at(*i[::-1]))

    def transpose(self, *axes):
        if axes and axes != tuple(range(self.ndim))[::-1]:
            raise Unsupported("transpose with axes")
        return self.T

    def at(self, *i):
        return self.f(*[lift(k) for k in i])

    def __symlen__(self):
        return self.shape[0]

    def __len__(self):
        if isinstance(self.shape[0], int):
            return self.shape[0]
        raise Unsupported("length of an array of unknown size")

    def __iter__(self):
        return iter([self[k] for k in range(len(self))])

    def __bool__(self):
        raise Unsupported("truth value of an array of unknown size")

    # ---- indexing
    def _axes(self, key):
        """[(index term or None, offset or None for a new axis)] -> (shape, how to get the own indices)"""
        key = key if isinstance(key, tuple) else (key,)
        used = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in key if k is None or k is Ellipsis]:
            at = [n for n, k in enumerate(key) if k is Ellipsis][0]
            key = key[:at] + (slice(None),) * (self.ndim - used) + key[at + 1:]
        else:
            key = key + (slice(None),) * (self.ndim - used)
        shape, how, ax = [], [], 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self.shape[ax]
            ax += 1
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("slice with a step of an array of unknown size")
                lo = self._bound(k.start, n, 0)
                hi = self._bound(k.stop, n, n)
                whole = k.start is None and k.stop is None
                size = n if whole else _diff(hi, lo)
                how.append((len(shape), lo))
                shape.append(size)
            elif isinstance(k, (int, np.integer, R)) and not isinstance(k, bool):
                how.append((None, self._index(k, n)))
            else:
                raise Unsupported("index of an array of unknown size")
        return shape, how

    @staticmethod
    def _bound(k, n, default):
        """A slice limit brought into 0..n, as numpy does."""
        if k is None:
            return default
        if isinstance(k, (int, np.integer)) and isinstance(n, int):
            return min(max(k + n if k < 0 else k, 0), n)
        k = lift(k)
        eng = runtime.ENGINE[0]
        if k.const() == 0:
            return 0
        if _true(T.lt(k, ZERO)):
            k = k + n
        if not _true(T.le(k, lift(n))):
            return n
        if _true(T.lt(k, ZERO)):
            return 0
        return k

    @staticmethod
    def _index(k, n):
        k = lift(k)
        if k.const() is not None and k.const() < 0:
            k = k + n
        if _bound_in(k):
            return k
        if not (_true(T.le(ZERO, k)) and _true(T.lt(k, lift(n)))):
            if _true(T.lt(k, ZERO)) and _true(T.le(ZERO, k + n)):
                return k + n
            raise IndexError("index out of bounds")
        return k

    def __getitem__(self, key):
        if isinstance(key, Lazy) and is_mask(key):
            return Masked(self, key)
        if isinstance(key, Lazy) or isinstance(key, np.ndarray):
            raise Unsupported("fancy index of an array of unknown size")
        shape, how = self._axes(key)

        def f(*i):
            return self.at(*[off if ax is None else lift(i[ax]) + off for ax, off in how])
        return Lazy(shape, f) if shape else f()

    def __setitem__(self, key, v):
        from . import proxy
        if isinstance(key, Lazy) and is_mask(key):
            return self._where(key, v)
        shape, how = self._axes(key)
        old, bumps = self.f, self.bumps
        if bumps is not None and len(how) == 1 and how[0][0] is None and np.ndim(v) == 0 and not isinstance(v, Lazy):
            bumps = bumps + [(how[0][1], proxy.el(v) - old(lift(how[0][1])))]
        else:
            bumps = None
        val = v if isinstance(v, Lazy) else None
        if val is None and isinstance(v, np.ndarray) and v.ndim:
            val = from_array(v)
        if val is not None:
            lead = len(shape) - val.ndim
            if lead < 0:
                raise Unsupported("assignment to an array of unknown size")
            for a, b in zip(shape[lead:], val.shape):
                if b != 1 and not same(a, b):
                    raise Unsupported("assignment of an array of another size")

        def f(*i):
            conds, own = [], [ZERO] * len(shape)
            for k, (ax, off) in zip(i, how):
                if ax is None:
                    conds.append(T.eq(k, lift(off)))
                else:
                    own[ax] = k - off
                    conds += [T.le(ZERO, own[ax]), T.lt(own[ax], lift(shape[ax]))]
            if val is None:
                new = proxy.el(v)
            else:
                new = val.at(*[ZERO if val.shape[a] == 1 else own[lead + a] for a in range(val.ndim)])
            return choose(T.and_(*conds), new, lambda: old(*i))
        self.f = f
        self.bumps = bumps

    def _where(self, mask, v):
        """Assignment to the elements where the mask holds."""
        from . import proxy
        if mask.ndim != self.ndim:
            raise Unsupported("mask of fewer dimensions")
        if isinstance(v, Masked):
            if v.mask is not mask:
                raise Unsupported("assignment of elements chosen by another mask")
            new = v.base.at
        elif isinstance(v, (Lazy, list, tuple)) or np.ndim(v):
            raise Unsupported("assignment of an array to chosen elements")
        else:
            new = lambda *i: proxy.el(v)
        old, holds = self.f, mask.f

        def f(*i):
            b = T.lift_b(holds(*i))
            return new(*i) if _true(b) else old(*i)
        self.f = f

    # ---- shape
    def squeeze(self, axis=None):
        axes = [k for k, n in enumerate(self.shape) if bool(n == 1)] if axis is None else [axis % self.ndim]
        for k in axes:
            if self.shape[k] != 1:
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
        keep = [k for k in range(self.ndim) if k not in axes]

        def f(*i):
            own = [ZERO] * self.ndim
            for k, x in zip(keep, i):
                own[k] = x
            return self.at(*own)
        return Lazy([self.shape[k] for k in keep], f) if keep else f()

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        if tuple(shape) == (-1,) or len(shape) == 1 and same(shape[0], self.size):
            return self.flatten()
        if len(shape) == self.ndim and all(same(a, b) for a, b in zip(shape, self.shape)):
            return self.copy()
        if shape and len(shape) <= self.ndim and all(same(a, b) for a, b in zip(shape[1:], self.shape[self.ndim - len(shape) + 1:])):
            lead = self.shape[:self.ndim - len(shape) + 1]
            n = 1
            for k in lead:
                n = n * k
            if isinstance(shape[0], int) and shape[0] == -1 or same(shape[0], n):
                # the leading axes merged
                return Lazy((n,) + self.shape[len(lead):], lambda k, *i: self.at(*(unravel(k, lead) + list(i))))
        raise Unsupported("reshape of an array of unknown size")

    def flatten(self, order="C"):
        """Row-major: the element at index k."""
        if self.ndim == 1:
            return self.copy()
        if order != "C":
            raise Unsupported("flatten in another order")

        return Lazy((self.size,), lambda k: self.at(*unravel(k, self.shape)))
    ravel = flatten

    def copy(self):
        g = self.f
        r = Lazy(self.shape, lambda *i: g(*i))
        r.bumps = self.bumps
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, *a, **k):
        from .proxy import _dt
        kind = np.dtype(_dt(dtype)).kind
        if kind == "f":
            return self.map(lambda x: lift(x) if not isinstance(x, float) else x)
        if kind in "iu":
            r = self.map(lambda x: T.trunc(lift(x)))
            if self.bumps is not None and all(lift(x).is_int_valued() for _, x in self.bumps):
                r.bumps = self.bumps
            return r
        if kind == "b":
            from .proxy import _b
            return self.map(_b)
        raise Unsupported("astype")

    def map(self, g):
        f = self.f
        return Lazy(self.shape, lambda *i: g(f(*i)))

    def roll(self, shift, axis=None):
        """One place along an axis."""
        if axis is None and self.ndim == 1:
            axis = 0
        if not isinstance(axis, int) or shift not in (1, -1):
            raise Unsupported("roll of an array of unknown size")
        ax = axis % self.ndim
        n = lift(self.shape[ax])
        g = self.f

        def f(*i):
            k = i[ax]
            src = T.ite(T.eq(k, n - 1), ZERO, k + 1) if shift == -1 else T.ite(T.eq(k, ZERO), n - 1, k - 1)
            return g(*(i[:ax] + (src,) + i[ax + 1:]))
        return Lazy(self.shape, f)

    # ---- reductions
    def sum(self, axis=None, **k):
        if axis is None:
            r = self
            while r.ndim > 1:
                r = r.sum(axis=-1)
            return total(r.shape[0], r.at)
        ax = axis % self.ndim
        shape = self.shape[:ax] + self.shape[ax + 1:]
        f = lambda *i: total(self.shape[ax], lambda k: self.at(*(i[:ax] + (k,) + i[ax:])))
        return Lazy(shape, f) if shape else f()

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def some(self, stop):
        """Truth value of any (stop=True) / all (stop=False), decided by a case split (see runtime.Many.some)."""
        from .core import PathEnd
        eng = runtime.ENGINE[0]
        c = eng.ctx
        if c.choice("some element", [False, True]):
            pos = []
            for n in self.shape:
                k = c.int("position")
                eng.assume(T.and_(T.le(ZERO, k), T.lt(k, lift(n))))
                pos.append(k)
            c.positions.append(tuple(pos))
            if bool(self.at(*pos)) is not stop:
                raise PathEnd("no such element")
            return stop
        for t in c.instances:
            t = t if isinstance(t, tuple) else (t,)
            if len(t) == self.ndim and bool(self.at(*t)) is stop:
                raise PathEnd("no such element")
        return not stop

    def any(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("any along an axis")
        return self.some(True)

    def all(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("all along an axis")
        return self.some(False)

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __neg__(self):
        return self.map(lambda x: -lift(x))

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        from .proxy import s_abs
        return self.map(s_abs)


def _binop(name, op, swap=False):
    def g(self, o):
        from .proxy import elementwise
        return elementwise(op, o, self) if swap else elementwise(op, self, o)
    return g


class Masked:
    """a[mask]: the elements where the mask holds, kept at their places in the array."""
    __array_ufunc__ = None
    __array_priority__ = 6000
    __hash__ = object.__hash__

    def __init__(self, base, mask):
        if mask.ndim != base.ndim or not all(same(x, y) for x, y in zip(base.shape, mask.shape)):
            raise Unsupported("mask of another size")
        self.base, self.mask = base, mask

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s of the elements chosen by a mask" % name)

    def __bool__(self):
        raise Unsupported("truth value of an array of unknown size")

    def __iter__(self):
        raise Unsupported("elements chosen by a mask")

    def __neg__(self):
        return Masked(-self.base, self.mask)

    def copy(self):
        return Masked(self.base.copy(), self.mask)

    def astype(self, *a, **k):
        return Masked(self.base.astype(*a, **k), self.mask)


def masked(f, *xs):
    """Elementwise operation, some operand being Masked."""
    mask = [x.mask for x in xs if isinstance(x, Masked)][0]
    for x in xs:
        if isinstance(x, Masked) and x.mask is not mask or isinstance(x, (Lazy, list, tuple)) or not isinstance(x, Masked) and np.ndim(x):
            raise Unsupported("elements chosen by a mask and others")
    return Masked(broadcast(f, *[x.base if isinstance(x, Masked) else x for x in xs]), mask)


def is_mask(x):
    return getattr(x, "bools", False)


for _n, _o in (("add", operator.add), ("sub", operator.sub), ("mul", operator.mul), ("truediv", operator.truediv),
               ("floordiv", operator.floordiv), ("mod", operator.mod), ("pow", operator.pow), ("and", operator.and_), ("or", operator.or_)):
    setattr(Lazy, "__%s__" % _n, _binop(_n, _o))
    setattr(Lazy, "__r%s__" % _n, _binop(_n, _o, True))
    setattr(Masked, "__%s__" % _n, _binop(_n, _o))
    setattr(Masked, "__r%s__" % _n, _binop(_n, _o, True))

    def _ip(self, o, op=_o):
        from .proxy import elementwise
        r = elementwise(op, self.copy(), o)
        if not isinstance(r, Lazy) or r.ndim != self.ndim or not all(same(a, b) for a, b in zip(r.shape, self.shape)):
            raise Unsupported("in-place operation changes the shape")
        self.f = r.f
        return self
    setattr(Lazy, "__i%s__" % _n, _ip)
for _n, _o in (("lt", operator.lt), ("le", operator.le), ("gt", operator.gt), ("ge", operator.ge), ("eq", operator.eq), ("ne", operator.ne)):
    setattr(Lazy, "__%s__" % _n, _binop(_n, _o))
    setattr(Masked, "__%s__" % _n, _binop(_n, _o))


def _bound_in(k):
    return any(is_bound(n) for n in T.free_vars(k))


def _true(b):
    b = T.lift_b(b)
    if b.kind == "const":
        return b.args[0]
    return runtime.ENGINE[0].branch(b)


def _diff(hi, lo):
    if isinstance(hi, int) and isinstance(lo, int):
        return max(hi - lo, 0)
    d = lift(hi) - lo
    if not isinstance(lo, int) or lo:
        return d if _true(T.le(ZERO, d)) else 0
    return d


def same(a, b):
    """Are two sizes equal?  (Provably so on this path.)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = lift(a) - b
    if d.const() is not None:
        return d.const() == 0
    from . import solve
    return solve.prove(runtime.ENGINE[0].pc, T.eq(lift(a), lift(b)), 1500).status == "proved"


def choose(cond, new, old):
    cond = T.lift_b(cond)
    if cond.kind == "const":
        return new if cond.args[0] else old()
    eng = runtime.ENGINE[0]
    known = eng.known(cond)
    if known is not None:
        return new if known else old()
    o = old()
    if isinstance(new, (R, int, float, B)) and isinstance(o, (R, int, float, B)):
        return T.ite(cond, lift(new), lift(o))
    return new if eng.branch(cond) else o


def from_array(a):
    """A numpy array of known shape as a Lazy one."""
    from .proxy import objarr
    a = objarr(a)

    def f(*i):
        ks = [k.const() for k in i]
        if any(k is None for k in ks):
            return pick(a, list(i))
        return a[tuple(int(k) for k in ks)]
    return Lazy(a.shape, f)


def pick(a, i):
    """Element of a concrete array at symbolic indices, by cases."""
    if not i:
        return a if not isinstance(a, np.ndarray) else a[()]
    out = None
    for k in range(len(a) - 1, -1, -1):
        e = pick(a[k], i[1:])
        out = e if out is None else T.ite(T.eq(i[0], lift(k)), lift(e), lift(out))
    if out is None:
        raise Unsupported("element of an empty array")
    return out


def aslazy(x):
    if isinstance(x, Lazy):
        return x
    if isinstance(x, (list, tuple)) and any(isinstance(e, Lazy) for e in x):
        return stack(x)
    return from_array(x)


def stack(xs):
    """np.array([...]) of arrays, some of unknown size."""
    ls = [aslazy(x) for x in xs]
    n = ls[0]
    for l in ls[1:]:
        if l.ndim != n.ndim or not all(same(a, b) for a, b in zip(l.shape, n.shape)):
            raise Unsupported("array of arrays of different sizes")

    def f(k, *i):
        c = k.const()
        if c is not None:
            return ls[int(c)].at(*i)
        out = ls[-1].at(*i)
        for j in range(len(ls) - 2, -1, -1):
            out = T.ite(T.eq(k, lift(j)), lift(ls[j].at(*i)), lift(out))
        return out
    return Lazy((len(ls),) + n.shape, f)


def broadcast(f, *xs):
    """Elementwise operation, some operand being Lazy."""
    from .proxy import el
    from .runtime import Many
    ls = [x if not isinstance(x, (Lazy, np.ndarray, list, tuple)) else aslazy(x) if not (isinstance(x, np.ndarray) and x.ndim == 0) else x.item() for x in xs]
    nd = max(l.ndim for l in ls if isinstance(l, Lazy))
    shape = []
    for ax in range(nd):
        n = 1
        for l in ls:
            if isinstance(l, Lazy) and ax >= nd - l.ndim:
                m = l.shape[ax - nd + l.ndim]
                if isinstance(m, int) and m == 1:
                    continue
                if isinstance(n, int) and n == 1:
                    n = m
                elif not same(n, m):
                    raise Unsupported("operands of different sizes")
        shape.append(n)

    def g(*i):
        args = []
        for l in ls:
            if isinstance(l, Lazy):
                own = i[nd - l.ndim:]
                args.append(el(l.at(*[ZERO if isinstance(n, int) and n == 1 else k for n, k in zip(l.shape, own)])))
            else:
                args.append(el(l))
        return f(*args)
    r = Lazy(shape, g)
    # a comparison, or a combination of comparisons
    r.bools = f in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne) or \
        f in (operator.and_, operator.or_) and all(is_mask(l) for l in ls if isinstance(l, Lazy))
    return r


def dot(a, b):
    """np.dot / @ for operands of at most two dimensions (or numbers)."""
    from .proxy import elementwise
    scalar = lambda x: not isinstance(x, (Lazy, list, tuple)) and np.ndim(x) == 0
    if scalar(a) or scalar(b):
        return elementwise(operator.mul, a, b)
    a, b = aslazy(a), aslazy(b)
    if b.ndim > 2 or a.ndim > 2 and b.ndim > 1:
        raise Unsupported("product of arrays of unknown size with more than two dimensions")
    n = a.shape[-1]
    m = b.shape[0]
    if not same(n, m):
        if isinstance(n, int) and isinstance(m, int):
            raise ValueError("shapes not aligned")
        raise Unsupported("product of arrays of different sizes")
    if not isinstance(n, int) and isinstance(m, int):
        n = m
    ia, ib = a.ndim - 1, b.ndim - 1
    f = lambda *i: total(n, lambda k: lift(a.at(*(i[:ia] + (k,)))) * lift(b.at(*((k,) + i[ia:]))))
    shape = a.shape[:ia] + b.shape[1:]
    return Lazy(shape, f) if shape else f()


def matmul(a, b):
    """a @ b, stacks of matrices included (one operand)."""
    if isinstance(a, (Lazy, list, tuple, np.ndarray)) and isinstance(b, (Lazy, list, tuple, np.ndarray)):
        a, b = aslazy(a), aslazy(b)
        if a.ndim == 2 and b.ndim == 3 and isinstance(b.shape[0], int):
            parts = [dot(a, b[k]) for k in range(b.shape[0])]
        elif a.ndim == 3 and b.ndim == 2 and isinstance(a.shape[0], int):
            parts = [dot(a[k], b) for k in range(a.shape[0])]
        else:
            return dot(a, b)
        return aslazy(parts)
    return dot(a, b)


def diag(v):
    if v.ndim == 1:
        return Lazy((v.shape[0],) * 2, lambda i, j: T.ite(T.eq(i, j), lift(v.at(i)), ZERO))
    if v.ndim == 2 and same(*v.shape):
        return Lazy((v.shape[0],), lambda i: v.at(i, i))
    raise Unsupported("diag")


def unravel(k, shape):
    """The indices of the element at row-major position k."""
    idx = []
    for n in shape[:0:-1]:
        q = T.floor(k / n)
        idx.append(k - q * n)
        k = q
    return [k] + idx[::-1]


def shape(a):
    return a.shape


def size(a, axis=None):
    return a.size if axis is None else a.shape[axis]


def ndim(a):
    return a.ndim


def expand_dims(a, axis):
    ax = axis % (a.ndim + 1)
    return a[(slice(None),) * ax + (None,)]


def broadcast_to(a, shape):
    shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
    lead = len(shape) - a.ndim
    if lead < 0 or not all(isinstance(n, int) and n == 1 or same(n, m) for n, m in zip(a.shape, shape[lead:])):
        raise Unsupported("broadcast to a shape")
    return Lazy(shape, lambda *i: a.at(*[ZERO if isinstance(n, int) and n == 1 else k for n, k in zip(a.shape, i[lead:])]))


def concatenate(xs, axis=0):
    ls = [aslazy(x) for x in xs]
    nd = ls[0].ndim
    ax = axis % nd
    for l in ls[1:]:
        if l.ndim != nd or not all(same(a, b) for k, (a, b) in enumerate(zip(l.shape, ls[0].shape)) if k != ax):
            raise Unsupported("arrays of different sizes joined")
    starts = [0]
    for l in ls:
        starts.append(starts[-1] + l.shape[ax])

    def f(*i):
        def part(j):
            at = lambda: ls[j].at(*(i[:ax] + (i[ax] - starts[j],) + i[ax + 1:]))
            return at() if j == len(ls) - 1 else choose_lazy(T.lt(i[ax], lift(starts[j + 1])), at, lambda: part(j + 1))
        return part(0)
    return Lazy(ls[0].shape[:ax] + (starts[-1],) + ls[0].shape[ax + 1:], f)


def choose_lazy(cond, new, old):
    cond = T.lift_b(cond)
    known = cond.args[0] if cond.kind == "const" else runtime.ENGINE[0].known(cond)
    return new() if known is True else old() if known is False else choose(cond, new(), old)


def repeat(a, repeats, axis=None):
    """Every element (row, ...) as often as its count; counts: one number, or ones with whole amounts added at places whose
    order is known."""
    if axis is None:
        if a.ndim != 1:
            a = a.flatten()
        axis = 0
    ax = axis % a.ndim
    n = a.shape[ax]
    if not isinstance(repeats, (Lazy, np.ndarray, list, tuple)):
        r = lift(repeats)
        if r.const() is None and not _true(T.lt(ZERO, r)):
            raise Unsupported("repeat of unknown sign")
        return Lazy(a.shape[:ax] + (n * repeats,) + a.shape[ax + 1:], lambda *i: a.at(*(i[:ax] + (T.floor(i[ax] / r),) + i[ax + 1:])))
    if not isinstance(repeats, Lazy):
        repeats = from_array(repeats)
    if repeats.ndim != 1 or not same(repeats.shape[0], n):
        raise Unsupported("repeat with counts of another size")
    if repeats.bumps is None:
        raise Unsupported("repeat with any counts")
    bumps = []
    for at, more in repeats.bumps:
        if not _surely(T.le(ZERO, lift(more))) or not lift(more).is_int_valued():
            raise Unsupported("repeat with any counts")
        j = len(bumps)
        while j and not _surely(T.le(lift(bumps[j - 1][0]), lift(at))):
            if not _surely(T.le(lift(at), lift(bumps[j - 1][0]))):
                raise Unsupported("repeat with any counts")
            j -= 1
        bumps.insert(j, (at, more))

    def f(*i):
        k = i[ax]
        for at, more in bumps:                   # the first place repeated, taken back
            at, more = lift(at), lift(more)
            k = T.ite(T.le(k, at), k, T.max_(at, k - more))
        return a.at(*(i[:ax] + (k,) + i[ax + 1:]))
    size = n
    for _, more in bumps:
        size = size + more
    return Lazy(a.shape[:ax] + (size,) + a.shape[ax + 1:], f)


def _surely(b):
    b = T.lift_b(b)
    if b.kind == "const":
        return b.args[0]
    from . import solve
    return solve.prove(runtime.ENGINE[0].pc, b, 1500).status == "proved"


def tile(a, reps):
    reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
    reps = (1,) * (a.ndim - len(reps)) + reps
    own = (1,) * (len(reps) - a.ndim) + a.shape
    lead = len(reps) - a.ndim

    def f(*i):
        at = [ZERO if isinstance(n, int) and n == 1 else k if isinstance(r, int) and r == 1 else k - T.floor(k / n) * n
              for k, n, r in zip(i, own, reps)]
        return a.at(*at[lead:])
    return Lazy([n * r for n, r in zip(own, reps)], f)


def eye(n):
    return Lazy((n, n), lambda i, j: T.ite(T.eq(i, j), ONE, ZERO))
