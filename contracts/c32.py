from contracts._common import *

F = ITV


def tight(c):
    """Sampled intervals are narrow, or points, now and then."""
    if not hasattr(c, "tight_"):
        c.tight_ = c.choice("tight", [1, 1, .05, 0]) if c.env_in is None or "?tight" in c.env_in else 1
    return c.tight_


def interval(c, name, shape=(), s=(-4, 4)):
    """An ordered interval and one of its members, of the given shape (sizes known or not)."""
    import numpy as np
    if not shape:
        a, m, b = (c.real("%s_%s" % (name, w), s=s) for w in ("lo", "x", "hi"))
        if not c.sym:
            a, m, b = sorted([a, m, b])
            a, b = m + tight(c) * (a - m), m + tight(c) * (b - m)
        c.require(And(le(a, m), le(m, b)))
        return a, m, b
    if not c.sym:
        three = np.sort(np.array([field(c, "%s_%s" % (name, w), shape, s) for w in ("lo", "x", "hi")]), axis=0)
        return three[1] + tight(c) * (three[0] - three[1]), three[1], three[1] + tight(c) * (three[2] - three[1])
    from pyvc.lazy import Lazy
    known = set()

    def at(which):
        def f(*i):
            key = repr(i)
            lo, x, hi = (T.uf("%s_%s" % (name, w), *i) for w in ("lo", "x", "hi"))
            if key not in known:
                known.add(key)
                c.require(And(le(lo, x), le(x, hi)))
            return (lo, x, hi)[which]
        return f
    return tuple(Lazy(shape, at(k)) for k in range(3))


def contains(c, what, i, x, shape):
    """The interval i, of the given shape, is ordered and contains x(indices), at an arbitrary position."""
    own = tuple(i.shape[1:]) if hasattr(i, "shape") else tuple(i[0].shape) if hasattr(i[0], "shape") else ()
    c.ensure(what + ": shape", And(len(own) == len(shape), *[eq(a, b) for a, b in zip(own, shape)]))
    k = [index(c, "any", n) for n in shape]
    lo, hi = (elem(i, b, *k) if hasattr(i, "shape") else elem(i[b], *k) for b in (0, 1))
    v = x(*k)
    c.ensure(what + ": ordered", le(lo, hi))
    c.ensure(what + ": contains the member's image", within(v, lo, hi))


def shapes(c):
    """Shapes of two factors, and the sum giving an element of their product."""
    n, m = c.int("n", 1, s=(1, 3)), c.int("m", 1, s=(1, 3))
    kind = c.choice("shapes", ["numbers", "number and vector", "number and matrix", "vectors", "matrix and vector", "matrices"])
    q = c.int("q", 1, s=(1, 3))
    sa = {"vectors": (n,), "matrix and vector": (m, n), "matrices": (m, n)}.get(kind, ())
    sb = {"numbers": (), "number and matrix": (n, m), "matrices": (n, q)}.get(kind, (n,))

    def image(a, b):
        if not sa:
            return (lambda *i: a * elem(b, *i)), sb
        return (lambda *i: total(c, n, lambda k: elem(a, *(i[:len(sa) - 1] + (k,))) * elem(b, *((k,) + i[len(sa) - 1:])))), sa[:-1] + sb[1:]
    return sa, sb, image


@contract("C32.product", [F + "intervals_product"])
def product(c):
    """[a] [b] contains a b: numbers, vectors, matrices of any size."""
    from highway_env.interval import intervals_product
    sa, sb, image = shapes(c)
    a0, a, a1 = interval(c, "a", sa)
    b0, b, b1 = interval(c, "b", sb)
    contains(c, "product", intervals_product([a0, a1], [b0, b1]), *image(a, b))


@contract("C32.scaling", [F + "intervals_scaling"])
def scaling(c):
    """a [b] contains a b: numbers, vectors, matrices of any size."""
    from highway_env.interval import intervals_scaling
    sa, sb, image = shapes(c)
    a = field(c, "a", sa) if sa else c.real("a", s=(-2, 2))
    b0, b, b1 = interval(c, "b", sb)
    contains(c, "scaling", intervals_scaling(a, [b0, b1]), *image(a, b))


@contract("C32.difference", [F + "intervals_diff", F + "interval_negative_part"])
def difference(c):
    """[a] - [b] contains a - b; the negative part of [a] contains min(a, 0)."""
    from highway_env.interval import intervals_diff, interval_negative_part
    n = c.int("n", 1, s=(1, 3))
    shape = c.choice("shape", [(), (n,), (n, 2)])
    a0, a, a1 = interval(c, "a", shape)
    b0, b, b1 = interval(c, "b", shape)
    contains(c, "difference", intervals_diff([a0, a1], [b0, b1]), lambda *i: elem(a, *i) - elem(b, *i), shape)
    contains(c, "negative part", interval_negative_part(c.arr([a0, a1])), lambda *i: vmin(elem(a, *i), 0), shape)


@contract("C32.integrator", [F + "integrator_interval"])
def integrator(c):
    """dx = -k x, k >= 0: an Euler step from any member stays between the steps of the bounds."""
    from highway_env.interval import integrator_interval
    x0, x, x1 = interval(c, "x")
    k0, k, k1 = interval(c, "k", s=(0, 4))
    c.require(le(0, k0))
    dt = c.real("dt", 0, s=(0, .25))
    c.require(le(dt * k1, 1))
    d = integrator_interval(c.arr([x0, x1]), c.arr([k0, k1]))
    new = x + dt * (-k * x)
    c.ensure("below", le(x0 + dt * d[0], new))
    c.ensure("above", le(new, x1 + dt * d[1]))


def planar(c, name, s=(-4, 4)):
    three = [interval(c, name + w, s=s) for w in "xy"]
    return tuple(c.arr([three[0][k], three[1][k]]) for k in range(3))


@contract("C32.section", [F + "vector_interval_section"])
def section(c):
    """The scalar products of the members with a direction."""
    from highway_env.interval import vector_interval_section
    v0, v, v1 = planar(c, "v")
    d = c.vec("direction", 2, s=(-2, 2))
    contains(c, "section", vector_interval_section(c.arr([list(v0), list(v1)]), d), lambda: v[0] * d[0] + v[1] * d[1], ())


@contract("C32.to-local", [F + "interval_absolute_to_local", LANE + "StraightLane"])
def to_local(c):
    """Straight lanes: the local coordinates of every member of a box of positions."""
    from highway_env.interval import interval_absolute_to_local
    lane = polar(c)
    p0, p, p1 = planar(c, "p", s=(-40, 40))
    lon, lat = interval_absolute_to_local(c.arr([list(p0), list(p1)]), lane)
    s, r = lane.local_coordinates(p)
    contains(c, "longitudinal", lon, lambda: s, ())
    contains(c, "lateral", lat, lambda: r, ())


@contract("C32.to-absolute", [F + "interval_local_to_absolute", LANE + "StraightLane"])
def to_absolute(c):
    """Straight lanes: the positions of every member of a box of local coordinates."""
    from highway_env.interval import interval_local_to_absolute
    lane = polar(c)
    s0, s, s1 = interval(c, "s", s=(0, 60))
    r0, r, r1 = interval(c, "r", s=(-5, 5))
    p = interval_local_to_absolute([s0, s1], [r0, r1], lane)
    q = lane.position(s, r)
    contains(c, "positions", p, lambda k: elem(q, k), (2,))
