"""Enclosures of closed terms (no variables) by rational interval arithmetic: decides comparisons of constants such as
sqrt(2) * cos(pi / 5) <= 2, which neither the normal form nor the solvers settle."""
from fractions import Fraction as F
from math import isqrt

from . import terms as T

_PI = (F(31415926535897932384626433832795028841971, 10 ** 40), F(31415926535897932384626433832795028841972, 10 ** 40))
_S = 10 ** 60


class NotClosed(Exception):
    pass


def _out(lo, hi):
    """Rounded outwards, to keep the fractions small."""
    return F((lo.numerator * _S) // lo.denominator, _S), F(-((-hi.numerator * _S) // hi.denominator), _S)


def _mul(a, b):
    xs = [x * y for x in a for y in b]
    return _out(min(xs), max(xs))


def _root(x):
    """Bounds of the square root of x >= 0."""
    n = x.numerator * _S * _S // x.denominator
    r = isqrt(n)
    return F(r, _S), F(r + 1, _S)


def _sine(x):
    """Bounds of sin over x, an interval: the value at the centre, and the slope is at most one."""
    m, w = (x[0] + x[1]) / 2, (x[1] - x[0]) / 2
    if abs(m) > 50:
        raise NotClosed
    m = _out(m, m)[0]
    s, t, k = F(0), m, 1
    while True:
        s += t
        t = -t * m * m / ((k + 1) * (k + 2))
        t = _out(t, t)[0]
        k += 2
        if k > abs(m) + 2 and abs(t) < F(1, 10 ** 45):
            break
    e = w + F(1, 10 ** 40)
    return max(s - e, F(-1)), min(s + e, F(1))


def enclose(p, memo=None):
    memo = {} if memo is None else memo
    lo = hi = F(0)
    for mono, k in p.m.items():
        x = (F(k), F(k))
        for i, e in mono:
            a = _atom(i, memo)
            if e < 0:
                if a[0] <= 0 <= a[1]:
                    raise NotClosed
                a, e = (1 / a[1], 1 / a[0]), -e
            if e > 40:
                raise NotClosed
            for _ in range(int(e)):
                x = _mul(x, a)
            if e % 2 == 0 and a[0] < 0 < a[1]:
                pass        # wider than need be
        lo, hi = lo + x[0], hi + x[1]
    return lo, hi


def _atom(i, memo):
    if i in memo:
        return memo[i]
    a = T._ATOMS[i]
    if a.kind == "pi":
        v = _PI
    elif a.kind == "fn" and a.name in ("sin", "cos", "sqrt", "abs", "inv"):
        x = enclose(a.args[0], memo)
        if a.name == "sin":
            v = _sine(x)
        elif a.name == "cos":
            v = _sine((x[0] + _PI[0] / 2, x[1] + _PI[1] / 2))
        elif a.name == "sqrt":
            if x[0] < 0:
                raise NotClosed
            v = _root(x[0])[0], _root(x[1])[1]
        elif a.name == "abs":
            v = (F(0), max(-x[0], x[1])) if x[0] < 0 < x[1] else (min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1])))
        else:
            if x[0] <= 0 <= x[1]:
                raise NotClosed
            v = 1 / x[1], 1 / x[0]
    else:
        raise NotClosed
    memo[i] = v = _out(*v)
    return v


def decide(b):
    """True or False for a comparison of closed terms, None where that is not clear."""
    if b.kind not in ("le", "lt", "not"):
        return None
    if b.kind == "not":
        r = decide(b.args[0])
        return None if r is None else not r
    try:
        lo, hi = enclose(b.args[0])
    except NotClosed:
        return None
    return True if hi < 0 else False if lo > 0 else None
