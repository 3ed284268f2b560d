"""Terms of the verifier: real-valued terms kept in a canonical form, and boolean terms over them.

A numeric term (class R) is a polynomial with rational coefficients over *atoms* (with integer exponents, negative ones
standing for division).  An atom is a variable, the constant pi, or an application: sin, cos, atan, asin, acos, atan2,
sqrt, abs, floor, round, exp, log, pow, ite, inv (of a sum), or an uninterpreted function.  Two numeric terms that are
equal by the field axioms and the rewrite rules below have the same representation, so most functional
post-conditions are discharged by normalisation alone; the rest goes to an SMT solver (solve.py).

R is also the value the code under verification computes with (it overloads the Python arithmetic operators), and B is
what it branches on: B.__bool__ asks the engine which way the current path goes.
"""
from fractions import Fraction
import math
import numbers
import numpy as _np

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """A construct the verifier cannot express; the contract is then not proved (never silently accepted)."""


class Hooks:
    """Callbacks installed by the engine."""
    elementwise = None   # (op name, R or B, ndarray, swapped) -> array
    branch = None        # B -> bool
    wd = None            # (kind, B) -> None : well-definedness obligation
    known = None         # B -> True / False / None: its truth value on the current path, when it is recorded there


HOOKS = Hooks()

# ---------------------------------------------------------------------------------------------------------------- atoms


class Atom:
    __slots__ = ("id", "kind", "name", "args", "isint", "depth")

    def __repr__(self):
        if self.kind in ("var", "pi"):
            return self.name
        return "%s(%s)" % (self.name, ", ".join(map(repr, self.args)))


_ATOMS = []
_TABLE = {}


def atom(kind, name, args=(), isint=False):
    key = (kind, name, args)
    a = _TABLE.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ATOMS)
        a.kind, a.name, a.args, a.isint = kind, name, args, isint
        a.depth = 1 + max([x.depth() if isinstance(x, R) else x.depth for x in args], default=0)
        _ATOMS.append(a)
        _TABLE[key] = a
    return a


def reset():
    pass


def to_fraction(x):
    """The rational a concrete number stands for: a float is read as the simplest rational next to it."""
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("non-finite number %r" % x)
        if x == int(x) and abs(x) < 1e15:
            return Fraction(int(x))
        ex = Fraction(x)
        for d in (10 ** 3, 10 ** 5, 10 ** 7):
            f = ex.limit_denominator(d)
            if abs(f - ex) <= abs(ex) * Fraction(1, 10 ** 14):
                return f
        return ex
    raise TypeError(x)


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, _np.bool_)) and not isinstance(x, R)


# ------------------------------------------------------------------------------------------------------------ polynomials

def _norm_mono(pairs):
    """pairs: dict atom_id->exp. Returns a polynomial dict (rewriting sin^2, sqrt^2) or a plain monomial tuple."""
    for i, e in pairs.items():
        a = _ATOMS[i]
        if a.kind == "fn":
            if (a.name == "sin" and e >= 2) or (a.name == "sqrt" and (e >= 2 or e < 0)) or \
                    (a.name == "abs" and (e >= 2 or e <= -2)) or (a.name == "bool" and e >= 2):
                return i, e
    return None


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for i, e in m2:
        n = d.get(i, 0) + e
        if n:
            d[i] = n
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def _needs(m):
    for i, e in m:
        a = _ATOMS[i]
        if a.kind == "fn" and e != 1:
            n = a.name
            if (n == "sin" and e >= 2) or (n == "sqrt" and (e >= 2 or e < 0)) or \
                    (n == "abs" and (e >= 2 or e <= -2)) or (n == "inv" and e < 0):
                return i, e
    return None


def _clean(terms):
    """terms: list of (mono, coef) -> canonical dict, applying the power rewrites."""
    out = {}
    stack = list(terms)
    while stack:
        m, c = stack.pop()
        if not c:
            continue
        r = _needs(m)
        if r is None:
            n = out.get(m, F0) + c
            if n:
                out[m] = n
            else:
                out.pop(m, None)
            continue
        i, e = r
        a = _ATOMS[i]
        rest = tuple(p for p in m if p[0] != i)
        if a.name == "sin":
            # sin^e = sin^(e-2) (1 - cos^2)
            cos_id = atom("fn", "cos", a.args).id
            base = _mono_mul(rest, ((i, e - 2),) if e > 2 else ())
            stack.append((base, c))
            stack.append((_mono_mul(base, ((cos_id, 2),)), -c))
        elif a.name == "sqrt":
            if e >= 2:
                q, rem = divmod(e, 2)
                p = _ipow(a.args[0], q)
            else:
                q, rem = divmod(e, 2)      # e = 2q + rem, q < 0
                p = _ipow(inverse(a.args[0]), -q)
            base = _mono_mul(rest, ((i, rem),) if rem else ())
            for m2, c2 in p.m.items():
                stack.append((_mono_mul(base, m2), c * c2))
        elif a.name == "abs":
            q, rem = (e // 2, e % 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            x = a.args[0]
            p = _ipow(x, 2 * q) if q > 0 else _ipow(inverse(x), -2 * q)
            base = _mono_mul(rest, ((i, rem),) if rem else ())
            for m2, c2 in p.m.items():
                stack.append((_mono_mul(base, m2), c * c2))
        elif a.name == "inv":
            p = _ipow(a.args[0], -e)
            for m2, c2 in p.m.items():
                stack.append((_mono_mul(rest, m2), c * c2))
    return out


class R(numbers.Real):
    """A real-valued term."""
    __slots__ = ("m", "_h", "_d")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, m):
        self.m = m
        self._h = None
        self._d = None

    # -- structure
    def key(self):
        return self.m

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def same(self, other):
        return isinstance(other, R) and self.m == other.m

    def depth(self):
        if self._d is None:
            self._d = max([_ATOMS[i].depth for mm in self.m for i, _ in mm], default=0)
        return self._d

    def const(self):
        """The Fraction this term is, or None."""
        if not self.m:
            return F0
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if k == ():
                return v
        return None

    @property
    def is_const(self):
        return self.const() is not None

    def is_int_valued(self):
        return self._int_coefs() or frozenset(self.m.items()) in INT_FORMS

    def _int_coefs(self):
        for mm, c in self.m.items():
            if c.denominator != 1:
                return False
            for i, e in mm:
                if e < 0 or not _ATOMS[i].isint:
                    return False
        return True

    def atoms(self):
        s = set()
        for mm in self.m:
            for i, _ in mm:
                s.add(i)
        return s

    def leading(self):
        return max(self.m.items(), key=lambda kv: (sum(abs(e) for _, e in kv[0]), kv[0])) if self.m else ((), F0)

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not o.m:
            return self
        d = dict(self.m)
        for k, v in o.m.items():
            n = d.get(k, F0) + v
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        return R(d)
    __radd__ = __add__

    def __neg__(self):
        return R({k: -v for k, v in self.m.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mul(self, o)

    def __rmul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mul(o, self)

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        _wd_nonzero(o)
        return mul(self, inverse(o))

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        _wd_nonzero(self)
        return mul(o, inverse(self))

    def __floordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        _wd_nonzero(o)
        return floor(mul(self, inverse(o)))

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        _wd_nonzero(o)
        return self - o * floor(mul(self, inverse(o)))

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(lift(o), self)

    def __abs__(self):
        return abs_(self)

    # -- comparisons
    def __lt__(self, o):
        s = _inf_sign(o)
        if s:
            return TRUE if s > 0 else FALSE
        o = lift(o)
        if o is NotImplemented:
            return o
        return lt(self, o)

    def __le__(self, o):
        s = _inf_sign(o)
        if s:
            return TRUE if s > 0 else FALSE
        o = lift(o)
        if o is NotImplemented:
            return o
        return le(self, o)

    def __gt__(self, o):
        s = _inf_sign(o)
        if s:
            return TRUE if s < 0 else FALSE
        o = lift(o)
        if o is NotImplemented:
            return o
        return lt(o, self)

    def __ge__(self, o):
        s = _inf_sign(o)
        if s:
            return TRUE if s < 0 else FALSE
        o = lift(o)
        if o is NotImplemented:
            return o
        return le(o, self)

    def __eq__(self, o):
        if _inf_sign(o):
            return FALSE
        o = lift(o)
        if o is NotImplemented:
            return False
        return eq(self, o)

    def __ne__(self, o):
        if _inf_sign(o):
            return TRUE
        o = lift(o)
        if o is NotImplemented:
            return True
        return not_(eq(self, o))

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c != 0
        return bool(not_(eq(self, ZERO)))

    # -- conversions
    def __float__(self):
        c = self.const()
        if c is None:
            v = const_value(self)
            if v is not None:
                return float(v)
            raise Unsupported("float() of a symbolic number outside the verifier's shims")
        return float(c)

    def __int__(self):
        c = self.const()
        if c is None:
            raise Unsupported("int() of a symbolic number outside the verifier's shims")
        return int(c)

    def __index__(self):
        c = self.const()
        if c is None or c.denominator != 1:
            from . import core
            return core.concretize_int(self)
        return int(c)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __round__(self, n=None):
        if n:
            raise Unsupported("round with digits")
        return round_(self)

    # numpy-like methods
    def squeeze(self, *a, **k):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def astype(self, *_a, **_k):
        return self

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def __repr__(self):
        if not self.m:
            return "0"
        parts = []
        for mm, c in sorted(self.m.items(), key=lambda kv: kv[0]):
            s = "*".join((repr(_ATOMS[i]) + ("" if e == 1 else "^%d" % e)) for i, e in mm)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c, s)
            parts.append(s)
        return " + ".join(parts)[:400]

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def mul(a, b):
    if not a.m or not b.m:
        return ZERO
    ca = a.const()
    if ca is not None:
        return b if ca == 1 else R({k: v * ca for k, v in b.m.items()})
    cb = b.const()
    if cb is not None:
        return a if cb == 1 else R({k: v * cb for k, v in a.m.items()})
    if len(a.m) * len(b.m) > 60000:
        raise Unsupported("term too large")
    return R(_clean([(_mono_mul(m1, m2), c1 * c2) for m1, c1 in a.m.items() for m2, c2 in b.m.items()]))


def _ipow(a, n):
    if n < 0:
        return _ipow(inverse(a), -n)
    r = ONE
    while n:
        if n & 1:
            r = mul(r, a)
        n >>= 1
        if n:
            a = mul(a, a)
    return r


def num(x):
    f = to_fraction(x)
    return R({(): f}) if f else ZERO


ZERO = R({})
ONE = R({(): F1})


def _inf_sign(x):
    if isinstance(x, float) and math.isinf(x):
        return 1 if x > 0 else -1
    return 0


def lift(x):
    if isinstance(x, R):
        return x
    if isinstance(x, B):
        return bool_to_num(x)
    if isinstance(x, (bool, int, float, Fraction, _np.integer, _np.floating, _np.bool_)):
        try:
            return num(x)
        except Unsupported:
            raise
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return NotImplemented


def var(name, isint=False):
    return R({((atom("var", name, (), isint).id, 1),): F1})


PI = R({((atom("pi", "pi").id, 1),): F1})
PI_ID = _TABLE[("pi", "pi", ())].id
PI_LO = Fraction("3.14159265358979323846264338327950288")
PI_HI = Fraction("3.14159265358979323846264338327950289")


def _atom_term(a):
    return R({((a.id, 1),): F1})


def fn(name, *args, isint=False):
    return _atom_term(atom("fn", name, tuple(args), isint))


def uf(name, *args, isint=False):
    """Uninterpreted function application."""
    return _atom_term(atom("uf", name, tuple(lift(a) for a in args), isint))


def _wd_nonzero(p):
    c = p.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return
    if HOOKS.wd:
        HOOKS.wd("division", not_(eq(p, ZERO)))


def inverse(p):
    if not p.m:
        raise ZeroDivisionError("division by zero")
    if len(p.m) == 1:
        (mm, c), = p.m.items()
        out = R({(): 1 / c})
        d = []
        for i, e in mm:
            d.append((i, -e))
        return mul(out, R(_clean([(tuple(d), F1)])))
    # common monomial factor
    (lm, lc) = p.leading()
    common = None
    for mm in p.m:
        dd = dict(mm)
        if common is None:
            common = dd
        else:
            common = {i: (min(e, dd[i]) if e > 0 and dd[i] > 0 else max(e, dd[i]) if e < 0 and dd[i] < 0 else 0)
                      for i, e in common.items() if i in dd}
            common = {i: e for i, e in common.items() if e}
        if not common:
            break
    common = {i: e for i, e in (common or {}).items()
              if not (_ATOMS[i].kind == "fn" and _ATOMS[i].name in ("sqrt", "sin", "abs", "inv"))}
    if common:
        cm = tuple(sorted((i, -e) for i, e in common.items()))
        q = R({_mono_mul(mm, cm): c for mm, c in p.m.items()})
        return mul(R({cm: F1}), inverse(q))
    q = R({k: v / lc for k, v in p.m.items()})
    return R({((atom("fn", "inv", (q,)).id, 1),): 1 / lc})


# ------------------------------------------------------------------------------------------------------------ functions

def const_value(p):
    """High-precision rational value of a term over pi only, else None."""
    if p.is_const:
        return p.const()
    v = F0
    for mm, c in p.m.items():
        t = c
        for i, e in mm:
            if i != PI_ID:
                return None
            t *= ((PI_LO + PI_HI) / 2) ** e
        v += t
    return v


def sign_of(p):
    """-1, 0, 1 when the sign is decided by the representation, else None."""
    v = const_value(p)
    if v is not None:
        return 0 if not p.m else (1 if v > 0 else -1)
    return None


def abs_(p):
    p = lift(p)
    s = sign_of(p)
    if s is not None:
        return p if s >= 0 else -p
    # factor out the rational content and normalise the sign
    lm, lc = p.leading()
    q = R({k: v / lc for k, v in p.m.items()})
    if len(q.m) == 1:
        (mm, _), = q.m.items()
        out = num(abs(lc))
        rest = {}
        for i, e in mm:
            a = _ATOMS[i]
            t = R({((i, e),): F1})
            if a.kind == "pi" or (a.kind == "fn" and a.name in ("sqrt", "abs", "exp")) or e % 2 == 0:
                out = mul(out, t)
            else:
                rest[i] = e
        for i, e in rest.items():
            base = fn("abs", R({((i, 1),): F1}))
            out = mul(out, _ipow(base, e))
        return out
    return mul(num(abs(lc)), fn("abs", q))


HALF = R({(): Fraction(1, 2)})


def max_(a, b):
    a, b = lift(a), lift(b)
    d = a - b
    s = sign_of(d)
    if s is not None:
        return a if s >= 0 else b
    return _intform(mul(HALF, a + b + abs_(d)), a, b)


def min_(a, b):
    a, b = lift(a), lift(b)
    d = a - b
    s = sign_of(d)
    if s is not None:
        return b if s >= 0 else a
    return _intform(mul(HALF, a + b - abs_(d)), a, b)


INT_FORMS = set()       # normal forms of integer-valued terms whose coefficients are not integers (max, min of integers)


def _intform(r, a, b):
    if a.is_int_valued() and b.is_int_valued():
        INT_FORMS.add(frozenset(r.m.items()))
    return r


def clip_(x, lo, hi):
    """numpy.clip: minimum(maximum(x, lo), hi)."""
    if lo is not None:
        x = max_(x, lo)
    if hi is not None:
        x = min_(x, hi)
    return x


def floor(p):
    p = lift(p)
    v = const_value(p)
    if v is not None:
        return num(v.numerator // v.denominator)
    ip, rest = {}, {}
    for mm, c in p.m.items():
        if mm == ():
            n = c.numerator // c.denominator
            if n:
                ip[mm] = Fraction(n)
            if c - n:
                rest[mm] = c - n
        elif all(e > 0 and _ATOMS[i].isint for i, e in mm):
            n = c.numerator // c.denominator
            if n:
                ip[mm] = Fraction(n)
            if c - n:
                rest[mm] = c - n
        else:
            rest[mm] = c
    if not rest:
        return R(ip)
    r = R(rest)
    v = const_value(r)
    if v is not None:
        return R(ip) + num(v.numerator // v.denominator)
    if HOOKS.known is not None and HOOKS.known(le(ZERO, r)) is True and HOOKS.known(lt(r, ONE)) is True:
        return R(ip)
    return R(ip) + fn("floor", r, isint=True)


def ceil(p):
    return -floor(-lift(p))


def trunc(p):
    p = lift(p)
    if p.is_int_valued():
        return p
    v = const_value(p)
    if v is not None:
        return num(int(v))
    return ite(le(ZERO, p), floor(p), ceil(p))


def round_(p):
    p = lift(p)
    if p.is_int_valued():
        return p
    v = const_value(p)
    if v is not None:
        return num(round(v))
    return fn("round", p, isint=True)


def sign(p):
    p = lift(p)
    s = sign_of(p)
    if s is not None:
        return num(s)
    return ite(lt(ZERO, p), ONE, ite(lt(p, ZERO), num(-1), ZERO))


def _isqrt_frac(f):
    n, d = f.numerator, f.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def sqrt(p, wd=True):
    p = lift(p)
    c = p.const()
    if c is not None:
        if c < 0:
            raise Unsupported("sqrt of a negative constant")
        r = _isqrt_frac(c)
        if r is not None:
            return num(r)
    elif wd and HOOKS.wd:
        HOOKS.wd("sqrt", le(ZERO, p))
    # pull out square factors of a monomial
    if len(p.m) == 1:
        (mm, c), = p.m.items()
        r = _isqrt_frac(c) if c > 0 else None
        out = ONE
        rest = []
        if r is not None:
            out = num(r)
            c = F1
        for i, e in mm:
            if e % 2 == 0:
                out = mul(out, _ipow(abs_(R({((i, 1),): F1})), e // 2))
            else:
                rest.append((i, e))
        if not rest and c == 1:
            return out
        return mul(out, fn("sqrt", R({tuple(rest): c})))
    sq = _perfect_square(p)
    if sq is not None:
        return abs_(sq)
    g = None
    # rational content: divide by leading coefficient's square part if it is a perfect square
    lm, lc = p.leading()
    if lc > 0:
        r = _isqrt_frac(lc)
        if r is not None and lc != 1:
            return mul(num(r), fn("sqrt", R({k: v / lc for k, v in p.m.items()})))
    # common monomial square factor (x^2 + x^2 y -> |x| sqrt(1+y))
    common = None
    for mm in p.m:
        dd = dict(mm)
        if common is None:
            common = {i: e for i, e in dd.items()}
        else:
            common = {i: (min(e, dd[i]) if e > 0 else max(e, dd[i])) for i, e in common.items()
                      if i in dd and (dd[i] > 0) == (e > 0)}
        if not common:
            break
    common = {i: (e // 2 * 2 if e > 0 else -((-e) // 2 * 2)) for i, e in (common or {}).items()}
    common = {i: e for i, e in common.items() if e and not (
        _ATOMS[i].kind == "fn" and _ATOMS[i].name in ("sin",))}
    if common:
        cm = tuple(sorted((i, -e) for i, e in common.items()))
        q = mul(p, R({cm: F1}))
        out = ONE
        for i, e in common.items():
            out = mul(out, _ipow(abs_(R({((i, 1),): F1})), e // 2))
        return mul(out, sqrt(q, wd=False))
    return fn("sqrt", p)


def _perfect_square(p):
    """q with q*q == p, for small binomial-like polynomials; None if not found."""
    if len(p.m) < 2 or len(p.m) > 10:
        return None
    squares = []
    for mm, c in p.m.items():
        if c > 0 and all(e % 2 == 0 for _, e in mm):
            r = _isqrt_frac(c)
            if r is not None:
                squares.append(R({tuple((i, e // 2) for i, e in mm): r}))
    if len(squares) < 2 or len(squares) > 4:
        return None
    n = len(squares)
    for bits in range(2 ** (n - 1)):
        q = squares[0]
        for k in range(1, n):
            q = q + (squares[k] if not (bits >> (k - 1)) & 1 else -squares[k])
        if mul(q, q).m == p.m:
            return q
    return None


def power(a, b):
    a = lift(a)
    if isinstance(b, R) and b.const() is not None:
        b = b.const()
    if isinstance(b, (int, float, Fraction, _np.integer, _np.floating)) and not isinstance(b, bool):
        f = to_fraction(b)
        if f.denominator == 1:
            n = int(f)
            if n < 0:
                _wd_nonzero(a)
            return _ipow(a, n)
        if f.denominator == 2:
            s = sqrt(a)
            return _ipow(s, f.numerator)
        if HOOKS.wd:
            HOOKS.wd("pow", le(ZERO, a))
        return fn("pow", a, num(f))
    b = lift(b)
    return fn("pow", a, b)


def _split_pi(p):
    """p = q*pi + rest (q rational), dropping multiples of 2*pi*integer-valued atoms."""
    q = F0
    rest = {}
    for mm, c in p.m.items():
        if mm == ((PI_ID, 1),):
            q += c
            continue
        d = dict(mm)
        if d.get(PI_ID) == 1:
            others = [(i, e) for i, e in mm if i != PI_ID]
            if all(e > 0 and _ATOMS[i].isint for i, e in others) and (c / 2).denominator == 1:
                continue
        rest[mm] = c
    return q, R(rest)


def _sc(p):
    """(sin p, cos p)."""
    q, rest = _split_pi(p)
    q = q - 2 * (q / 2).__floor__()          # in [0, 2)
    k = int(q * 2)                            # quarter turns
    q -= Fraction(k, 2)
    if q:
        base = _sc_const(q)
        if rest.m:
            s1, c1 = _sc_rest(rest)
            s0, c0 = base
            s, c = s0 * c1 + c0 * s1, c0 * c1 - s0 * s1
        else:
            s, c = base
    else:
        s, c = _sc_rest(rest)
    for _ in range(k):
        s, c = c, -s
    return s, c


def _sc_const(q):
    """sin/cos of q*pi with 0 < q < 1/2."""
    t = {Fraction(1, 4): (mul(HALF, sqrt(num(2))), mul(HALF, sqrt(num(2)))),
         Fraction(1, 6): (HALF, mul(HALF, sqrt(num(3)))),
         Fraction(1, 3): (mul(HALF, sqrt(num(3))), HALF)}
    if q in t:
        return t[q]
    arg = num(q) * PI
    return fn("sin", arg), fn("cos", arg)


def _sc_rest(p):
    if not p.m:
        return ZERO, ONE
    items = sorted(p.m.items())
    s, c = None, None
    for mm, co in items:
        s1, c1 = _sc_mono(mm, co)
        if s is None:
            s, c = s1, c1
        else:
            s, c = s * c1 + c * s1, c * c1 - s * s1
    return s, c


def _sc_mono(mm, co):
    neg = co < 0
    co = abs(co)
    n = 1
    if co.denominator == 1 and 2 <= co.numerator <= 4:
        n = co.numerator
        co = F1
    arg = R({mm: co})
    s = c = None
    if co == 1 and len(mm) == 1 and mm[0][1] == 1:
        a = _ATOMS[mm[0][0]]
        if a.kind == "fn":
            if a.name == "atan":
                x = a.args[0]
                h = inverse(sqrt(ONE + x * x, wd=False))
                s, c = x * h, h
            elif a.name == "asin":
                x = a.args[0]
                s, c = x, sqrt(ONE - x * x, wd=False)
            elif a.name == "acos":
                x = a.args[0]
                s, c = sqrt(ONE - x * x, wd=False), x
            elif a.name == "atan2":
                y, x = a.args
                h = inverse(sqrt(x * x + y * y, wd=False))
                s, c = y * h, x * h
    if s is None:
        s, c = fn("sin", arg), fn("cos", arg)
    s0, c0 = s, c
    for _ in range(n - 1):
        s, c = s * c0 + c * s0, c * c0 - s * s0
    return (-s, c) if neg else (s, c)


def sin(p):
    p = lift(p)
    return _sc(p)[0]


def cos(p):
    p = lift(p)
    return _sc(p)[1]


def tan(p):
    s, c = _sc(lift(p))
    if c.const() == 0:
        raise Unsupported("tan at a pole")
    return s * inverse(c)


def _lead_neg(p):
    return p.leading()[1] < 0


def atan(p):
    p = lift(p)
    if not p.m:
        return ZERO
    c = p.const()
    if c == 1:
        return PI * num(Fraction(1, 4))
    if c == -1:
        return PI * num(Fraction(-1, 4))
    if _lead_neg(p):
        return -atan(-p)
    return fn("atan", p)


def asin(p):
    p = lift(p)
    c = p.const()
    if c is not None:
        t = {F0: F0, F1: Fraction(1, 2), Fraction(1, 2): Fraction(1, 6)}
        if abs(c) in t:
            return PI * num(t[abs(c)] * (1 if c >= 0 else -1))
    elif HOOKS.wd:
        HOOKS.wd("arcsin", and_(le(num(-1), p), le(p, ONE)))
    if _lead_neg(p):
        return -_asin_raw(-p)
    return _asin_raw(p)


def _asin_raw(p):
    if not p.m:
        return ZERO
    return fn("asin", p)


def acos(p):
    return PI * HALF - asin(p)


def atan2(y, x):
    y, x = lift(y), lift(x)
    cy, cx = y.const(), x.const()
    if cy is not None and cx is not None:
        if cy == 0:
            return ZERO if cx >= 0 else PI
        if cx == 0:
            return PI * HALF if cy > 0 else -PI * HALF
        if abs(cx) == abs(cy):
            return PI * num(Fraction(1 if cx > 0 else 3, 4) * (1 if cy > 0 else -1))
    if cy == 0 and sign_of(x) is not None:
        return ZERO if sign_of(x) > 0 else PI
    if cx == 0 and sign_of(y) is not None:
        return PI * HALF * num(sign_of(y))
    # common positive scalar content
    _, lc = (x if x.m else y).leading()
    if abs(lc) != 1:
        k = num(1 / abs(lc))
        y, x = y * k, x * k
    r = _polar(y, x)
    if r is not None:
        k, th = r
        # value: th + 2 pi n with n the integer bringing it into (-pi, pi]; valid for k > 0
        if HOOKS.decide is not None and HOOKS.decide(lt(ZERO, k)):
            n = fn("turns", th, isint=True)
            return th + 2 * PI * n
    return fn("atan2", y, x)


HOOKS.decide = None


def _polar(y, x):
    """(k, th) with y = k sin th, x = k cos th, when syntactically so."""
    cands = set()
    for i in x.atoms() | y.atoms():
        a = _ATOMS[i]
        if a.kind == "fn" and a.name in ("sin", "cos"):
            cands.add(a.args[0])
    cands = list(cands)
    if not cands or len(cands) > 4:
        return None
    from itertools import product
    for signs in product((1, -1, 0), repeat=len(cands)):
        if not any(signs):
            continue
        th = ZERO
        for sg, a in zip(signs, cands):
            th = th + a * sg
        s, c = _sc(th)
        # x = k c, y = k s  <=>  x s = y c, with k = x c + y s
        if (x * s - y * c).m:
            continue
        k = x * c + y * s
        return k, th
    return None


def exp(p):
    p = lift(p)
    if not p.m:
        return ONE
    return fn("exp", p)


def log(p):
    p = lift(p)
    if p.const() == 1:
        return ZERO
    if HOOKS.wd:
        HOOKS.wd("log", lt(ZERO, p))
    return fn("log", p)


def deriv(p, v):
    """Partial derivative of p with respect to the variable term v (a single variable atom)."""
    (mm, c), = v.m.items()
    vid = mm[0][0]
    return _deriv(p, vid)


def _deriv(p, vid):
    out = ZERO
    for mm, c in p.m.items():
        for k, (i, e) in enumerate(mm):
            da = _datom(i, vid)
            if not da.m:
                continue
            rest = tuple(q for q in mm if q[0] != i)
            base = R(_clean([(rest, c * e)]))
            if e != 1:
                base = mul(base, R(_clean([(((i, e - 1),), F1)])))
            out = out + mul(base, da)
    return out


def _datom(i, vid):
    a = _ATOMS[i]
    if i == vid:
        return ONE
    if a.kind in ("var", "pi"):
        return ZERO
    ds = [_deriv(x, vid) if isinstance(x, R) else None for x in a.args]
    if all(d is not None and not d.m for d in ds):
        return ZERO
    x = a.args[0]
    if a.kind == "fn":
        if a.name == "sin":
            return fn("cos", x) * ds[0]
        if a.name == "cos":
            return -fn("sin", x) * ds[0]
        if a.name == "sqrt":
            return HALF * inverse(fn("sqrt", x)) * ds[0]
        if a.name == "inv":
            t = R({((i, 1),): F1})
            return -t * t * ds[0]
        if a.name == "atan":
            return inverse(ONE + x * x) * ds[0]
        if a.name == "exp":
            return fn("exp", x) * ds[0]
        if a.name == "atan2":       # (y, x), away from the origin
            y, x = a.args
            return (x * ds[0] - y * ds[1]) * inverse(x * x + y * y)
    raise Unsupported("derivative of %r" % (a,))


def subst(p, mapping, memo=None):
    """Replace variables (by name) with terms or numbers throughout; rebuilds the normal form."""
    if memo is None:
        memo = {}
    out = ZERO
    for mm, c in p.m.items():
        t = num(c)
        for i, e in mm:
            t = mul(t, _ipow(_subst_atom(i, mapping, memo), e))
        out = out + t
    return out


def _subst_atom(i, mapping, memo):
    if i in memo:
        return memo[i]
    a = _ATOMS[i]
    if a.kind == "var":
        r = mapping.get(a.name)
        r = _atom_term(a) if r is None else lift(r)
    elif a.kind == "pi":
        r = PI
    elif a.kind == "uf" and a.name == "Sum":
        d = int(a.args[0].const())
        inner = {k: v for k, v in mapping.items() if k != "bound!%d" % d}
        m2 = memo if len(inner) == len(mapping) else {}
        from .lazy import linear
        r = linear(d, subst(a.args[1], mapping, memo), subst(a.args[2], inner, m2))
        memo[i] = r
        return r
    else:
        args = [subst(x, mapping, memo) if isinstance(x, R) else subst_b(x, mapping, memo) for x in a.args]
        if a.kind == "uf":
            r = uf(a.name, *args, isint=a.isint)
        else:
            r = {"sin": sin, "cos": cos, "sqrt": sqrt, "abs": abs_, "atan": atan, "asin": asin, "floor": floor,
                 "round": round_, "exp": exp, "log": log, "inv": inverse, "atan2": atan2, "ite": ite,
                 "pow": lambda x, y: fn("pow", x, y),
                 "turns": lambda x: fn("turns", x, isint=True)}[a.name](*args)
    memo[i] = r
    return r


def is_zero(p, budget=6):
    """Sound, incomplete: True if p vanishes wherever its denominators do not (they carry their own obligations)."""
    for _ in range(budget):
        if not p.m:
            return True
        # clear negative exponents and inv atoms
        best = None
        for mm in p.m:
            for i, e in mm:
                a = _ATOMS[i]
                if e < 0 and not (a.kind == "fn" and a.name in ("sqrt",)):
                    best = ("neg", i)
                elif a.kind == "fn" and a.name == "inv" and e > 0:
                    if best is None or best[0] == "inv" and _ATOMS[best[1]].depth < a.depth:
                        best = ("inv", i)
        if best is None:
            return False
        kind, i = best
        if kind == "neg":
            k = max(-e for mm in p.m for j, e in mm if j == i)
            try:
                p = mul(p, R({((i, k),): F1}))
            except Unsupported:
                return False
        else:
            k = max(e for mm in p.m for j, e in mm if j == i)
            q = _ATOMS[i].args[0]
            out = ZERO
            try:
                qs = [ONE]
                for _j in range(k):
                    qs.append(mul(qs[-1], q))
                for mm, c in p.m.items():
                    e = dict(mm).get(i, 0)
                    rest = tuple(x for x in mm if x[0] != i)
                    out = out + mul(R({rest: c}), qs[k - e])
            except Unsupported:
                return False
            p = out
    return not p.m


# ----------------------------------------------------------------------------------------------------------------- booleans

class B:
    """A boolean term. kinds: const, le (p<=0), lt (p<0), eq (p==0), var, and, or, not."""
    __slots__ = ("kind", "args", "_h", "depth")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, kind, args):
        self.kind, self.args = kind, args
        self._h = hash((kind, args))
        self.depth = 1 + max([x.depth() if isinstance(x, R) else x.depth if isinstance(x, B) else 0 for x in args],
                             default=0)

    def __hash__(self):
        return self._h

    def same(self, o):
        if self is o:
            return True
        if not isinstance(o, B) or self._h != o._h or self.kind != o.kind or len(self.args) != len(o.args):
            return False
        for a, b in zip(self.args, o.args):
            if isinstance(a, (R, B)):
                if not a.same(b):
                    return False
            elif a != b:
                return False
        return True

    def __bool__(self):
        if self.kind == "const":
            return self.args[0]
        if HOOKS.branch is None:
            raise Unsupported("truth value of a symbolic condition outside the engine")
        return HOOKS.branch(self)

    def __invert__(self):
        return not_(self)

    def __and__(self, o):
        o = lift_b(o)
        return o if o is NotImplemented else and_(self, o)
    __rand__ = __and__

    def __or__(self, o):
        o = lift_b(o)
        return o if o is NotImplemented else or_(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        o = lift_b(o)
        return or_(and_(self, not_(o)), and_(not_(self), o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else not_(self)
        if isinstance(o, B):
            return iff(self, o)
        return bool_to_num(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r) if isinstance(r, B) else not r

    def __mul__(self, o):
        return bool_to_num(self) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return bool_to_num(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return bool_to_num(self) - o

    def __rsub__(self, o):
        return o - bool_to_num(self)

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __int__(self):
        return 1 if bool(self) else 0

    def any(self):
        return self

    all = any

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        k = self.kind
        if k == "const":
            return str(self.args[0])
        if k in ("le", "lt", "eq"):
            return "(%r %s 0)" % (self.args[0], {"le": "<=", "lt": "<", "eq": "=="}[k])
        if k == "var":
            return self.args[0]
        if k == "not":
            return "!%r" % (self.args[0],)
        return "(" + (" & " if k == "and" else " | ").join(map(repr, self.args)) + ")"


TRUE, FALSE = B("const", (True,)), B("const", (False,))


def lift_b(x):
    if isinstance(x, B):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, R):
        return not_(eq(x, ZERO))
    return NotImplemented


def bvar(name):
    return B("var", (name,))


def _cmp(kind, p):
    v = const_value(p)
    if v is not None:
        if not p.m:
            v = F0
        r = {"le": v <= 0, "lt": v < 0, "eq": v == 0}[kind]
        return TRUE if r else FALSE
    lm, lc = p.leading()
    k = abs(lc) if kind != "eq" else lc
    if k != 1:
        p = R({m: c / k for m, c in p.m.items()})
    return B(kind, (p,))


def le(a, b):
    return _cmp("le", lift(a) - lift(b))


def lt(a, b):
    return _cmp("lt", lift(a) - lift(b))


def eq(a, b):
    return _cmp("eq", lift(a) - lift(b))


def not_(b):
    b = lift_b(b)
    if b.kind == "const":
        return FALSE if b.args[0] else TRUE
    if b.kind == "not":
        return b.args[0]
    if b.kind == "le":
        return _cmp("lt", -b.args[0])
    if b.kind == "lt":
        return _cmp("le", -b.args[0])
    if b.kind == "and":
        return or_(*[not_(x) for x in b.args])
    if b.kind == "or":
        return and_(*[not_(x) for x in b.args])
    return B("not", (b,))


def _flat(kind, xs, neutral, absorbing):
    out = []
    seen = set()
    for x in xs:
        x = lift_b(x)
        if x.kind == "const":
            if x.args[0] == absorbing:
                return None
            continue
        for y in (x.args if x.kind == kind else (x,)):
            h = hash(y)
            if h in seen and any(y.same(z) for z in out):
                continue
            seen.add(h)
            out.append(y)
    return out


def and_(*xs):
    out = _flat("and", xs, True, False)
    if out is None:
        return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else B("and", tuple(out))


def or_(*xs):
    out = _flat("or", xs, False, True)
    if out is None:
        return TRUE
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else B("or", tuple(out))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    a, b = lift_b(a), lift_b(b)
    if a.same(b):
        return TRUE
    return and_(or_(not_(a), b), or_(a, not_(b)))


def ite(c, a, b):
    c = lift_b(c)
    a, b = lift(a), lift(b)
    if c.kind == "const":
        return a if c.args[0] else b
    if a.m == b.m:
        return a
    if HOOKS.known is not None:
        k = HOOKS.known(c)
        if k is not None:
            return a if k else b
    if c.kind == "not":
        c, a, b = c.args[0], b, a
    # abs / max / min patterns become canonical abs terms
    if c.kind in ("le", "lt"):
        p = c.args[0]
        d = a - b
        # c: p<=0 ; ite(p<=0, a, b) with d = a-b = -k p or k p -> b + max/min
        if d.m and len(d.m) == len(p.m):
            lm, lc = p.leading()
            k = d.m.get(lm)
            if k is not None:
                k = k / lc
                if R({m: v * k for m, v in p.m.items()}).m == d.m:
                    # d = k p ; value = b + (p<=0 ? k p : 0) = b + k*min(p,0)
                    return b + num(k) * min_(p, ZERO)
    isint = a.is_int_valued() and b.is_int_valued()
    return fn("ite", c, a, b, isint=isint)


def bool_to_num(b):
    return ite(b, ONE, ZERO)


def subst_b(b, mapping, memo=None):
    if b.kind == "const":
        return b
    if b.kind in ("le", "lt", "eq"):
        return _cmp(b.kind, subst(b.args[0], mapping, memo))
    if b.kind == "var":
        r = mapping.get(b.args[0])
        return b if r is None else lift_b(r)
    if b.kind == "not":
        return not_(subst_b(b.args[0], mapping, memo))
    f = and_ if b.kind == "and" else or_
    return f(*[subst_b(x, mapping, memo) for x in b.args])


# ------------------------------------------------------------------------------------------------------ numeric evaluation

def evalf(p, env, memo=None):
    """Floating-point value of a term under env: variable name -> float."""
    if memo is None:
        memo = {}
    tot = 0.0
    for mm, c in p.m.items():
        t = float(c)
        for i, e in mm:
            t *= _eval_atom(i, env, memo) ** e
        tot += t
    return tot


def _eval_atom(i, env, memo):
    if i in memo:
        return memo[i]
    a = _ATOMS[i]
    if a.kind == "var":
        v = float(env.get(a.name, 0.0))
    elif a.kind == "pi":
        v = math.pi
    elif a.kind == "uf":
        v = float(env.get(("uf", a.name) + tuple(round(evalf(x, env, memo), 9) for x in a.args), 0.0))
    else:
        n = a.name
        if n == "ite":
            v = evalf(a.args[1], env, memo) if eval_b(a.args[0], env, memo) else evalf(a.args[2], env, memo)
        else:
            xs = [evalf(x, env, memo) for x in a.args]
            v = {"sin": math.sin, "cos": math.cos, "atan": math.atan, "asin": lambda x: math.asin(max(-1, min(1, x))),
                 "acos": lambda x: math.acos(max(-1, min(1, x))),
                 "sqrt": lambda x: math.sqrt(max(x, 0.0)), "abs": abs, "floor": lambda x: float(math.floor(x)),
                 "round": lambda x: float(round(x)), "exp": lambda x: math.exp(min(x, 700)),
                 "log": lambda x: math.log(max(x, 1e-300)), "inv": lambda x: 1.0 / x if x else float("inf"),
                 "atan2": math.atan2, "pow": lambda x, y: max(x, 0.0) ** y,
                 "turns": lambda x: float(-math.ceil((x - math.pi) / (2 * math.pi)))}[n](*xs)
    memo[i] = v
    return v


def eval_b(b, env, memo=None, tol=0.0):
    if memo is None:
        memo = {}
    k = b.kind
    if k == "const":
        return b.args[0]
    if k == "le":
        return evalf(b.args[0], env, memo) <= tol
    if k == "lt":
        return evalf(b.args[0], env, memo) < -tol if tol else evalf(b.args[0], env, memo) < 0
    if k == "eq":
        return abs(evalf(b.args[0], env, memo)) <= max(tol, 1e-9)
    if k == "var":
        return bool(env.get(b.args[0], False))
    if k == "not":
        return not eval_b(b.args[0], env, memo, tol)
    if k == "and":
        return all(eval_b(x, env, memo, tol) for x in b.args)
    return any(eval_b(x, env, memo, tol) for x in b.args)


def has_fn(t, names, seen=None):
    """Does the term apply one of the named functions anywhere?"""
    seen = set() if seen is None else seen
    if isinstance(t, R):
        for i in t.atoms():
            if i in seen:
                continue
            seen.add(i)
            a = _ATOMS[i]
            if a.kind in names or a.kind == "fn" and a.name in names or a.kind == "uf" and a.name == "Sum" and "Sum" in names:
                return True
            if any(has_fn(x, names, seen) for x in a.args):
                return True
        return False
    return t.kind not in ("const", "var") and any(has_fn(x, names, seen) for x in t.args)


def free_vars(t, acc=None, seen=None):
    """Names of variables (numeric and boolean) occurring in a term."""
    if acc is None:
        acc, seen = {}, set()
    if isinstance(t, R):
        for i in t.atoms():
            if i in seen:
                continue
            seen.add(i)
            a = _ATOMS[i]
            if a.kind == "var":
                acc[a.name] = a
            for x in a.args:
                free_vars(x, acc, seen)
    elif isinstance(t, B):
        if t.kind == "var":
            acc[t.args[0]] = t
        elif t.kind != "const":
            for x in t.args:
                free_vars(x, acc, seen)
    return acc


_LAZY = []


def _lazy():
    if not _LAZY:
        from .lazy import Lazy
        _LAZY.append(Lazy)
    return _LAZY[0]


def _with_arrays(cls, names):
    for n in names:
        f = cls.__dict__.get(n)
        if f is None:
            continue

        def g(self, o, f=f, n=n):
            if isinstance(o, _np.ndarray) and o.ndim or type(o) is _lazy():
                return HOOKS.elementwise(n, self, o)
            return f(self, o)
        g.__name__ = n
        setattr(cls, n, g)


_OPS = ["__%s__" % n for n in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow "
                               "lt le gt ge eq ne and rand or ror xor rxor").split()]
_with_arrays(R, _OPS)
_with_arrays(B, _OPS)


def _b_cmp(n):
    def g(self, o):
        return getattr(bool_to_num(self), n)(o)
    return g


for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__rsub__", "__truediv__", "__rtruediv__", "__neg__", "__pow__"):
    if _n not in B.__dict__ or _n in ("__lt__",):
        if _n == "__neg__":
            B.__neg__ = lambda self: -bool_to_num(self)
        else:
            setattr(B, _n, _b_cmp(_n))
