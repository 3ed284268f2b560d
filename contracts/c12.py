from contracts._common import *


def rect(c, tag=""):
    return (c.vec("c" + tag, 2, s=(-4, 4)), c.pos("l" + tag, s=(1, 6)), c.pos("w" + tag, s=(1, 3)), c.real("a" + tag, s=(-4, 4)))


def own(p, r):
    """Coordinates of p in the rectangle's own frame."""
    dx, dy = p[0] - r[0][0], p[1] - r[0][1]
    return cos(r[3]) * dx + sin(r[3]) * dy, -sin(r[3]) * dx + cos(r[3]) * dy


def inside(p, r):
    x, y = own(p, r)
    return And(le(absv(x), r[1] / 2), le(absv(y), r[2] / 2))


def at(r, x, y):
    """The world point with coordinates (x, y) in the rectangle's frame."""
    return (r[0][0] + cos(r[3]) * x - sin(r[3]) * y, r[0][1] + sin(r[3]) * x + cos(r[3]) * y)


@contract("C12.point", [UTIL + "point_in_rotated_rectangle", UTIL + "point_in_rectangle"])
def point(c):
    """Inside exactly when the own-frame coordinates are within half the length and half the width (any sizes)."""
    r, p = rect(c), c.vec("p", 2, s=(-6, 6))
    from highway_env import utils
    c.ensure("inside", Iff(utils.point_in_rotated_rectangle(p, r[0], r[1], r[2], r[3]), inside(p, r)))


@contract("C12.box", [UTIL + "point_in_rectangle"])
def box(c):
    """Axis-aligned membership: both coordinates between the bounds, bounds included."""
    from highway_env import utils
    p, a, b = c.vec("p", 2), c.vec("a", 2), c.vec("b", 2)
    c.ensure("inside", Iff(utils.point_in_rectangle(p, a, b), And(within(p[0], a[0], b[0]), within(p[1], a[1], b[1]))))


INTERSECT = [UTIL + "rotated_rectangles_intersect"]


def pair(c, place):
    """Any two rectangles: the second at place(its half axes), turned by t, in the frame of the first."""
    r1 = rect(c, "1")
    l, w, t = c.pos("l2", s=(1, 6)), c.pos("w2", s=(1, 3)), c.real("turn", s=(-4, 4))
    x, y = place((r1[1] / 2, r1[2] / 2), ((cos(t) * l / 2, sin(t) * l / 2), (-sin(t) * w / 2, cos(t) * w / 2)))
    return r1, (c.arr(at(r1, x, y)), l, w, r1[3] + t), (x, y), t


@contract("C12.complete", INTERSECT)
def complete(c):
    """Reported whenever the rectangles share a point, any one, on their borders or inside."""
    from highway_env import utils
    i, j, k, m = [c.real(x, -1, 1) for x in ("i", "j", "k", "m")]
    if not c.sym and max(abs(x) for x in (i, j, k, m)) > .999999:
        raise Discard()     # on a border up to rounding
    # the point (i, j) of the first is the point (k, m) of the second
    r1, r2, _, t = pair(c, lambda a, b: (i * a[0] - k * b[0][0] - m * b[1][0], j * a[1] - k * b[0][1] - m * b[1][1]))
    for z, l in ((i, r1[1]), (j, r1[2]), (k, r2[1]), (m, r2[2])):
        c.lemma("within", And(le(l * z, l), le(-l, l * z)))
        for f in (cos(t), sin(t)):
            c.lemma("turned", And(le(z * f, absv(f)), le(-absv(f), z * f)))
            c.lemma("scaled", And(le(l * z * f, l * absv(f)), le(-l * absv(f), l * z * f)))
    C, S = cos(t), sin(t)
    (l1, w1), (l2, w2) = r1[1:3], r2[1:3]
    for gap, most in ((i * l1 - k * C * l2 + m * S * w2, l1 + absv(C) * l2 + absv(S) * w2), (j * w1 - k * S * l2 - m * C * w2, w1 + absv(S) * l2 + absv(C) * w2),
                      (i * C * l1 + j * S * w1 - k * l2, l2 + absv(C) * l1 + absv(S) * w1), (j * C * w1 - i * S * l1 - m * w2, w2 + absv(S) * l1 + absv(C) * w1)):
        c.lemma("shadows", And(le(gap, most), le(-most, gap)))
        c.lemma("shadows meet", le(absv(gap), most))
    c.ensure("reported", utils.rotated_rectangles_intersect(r1, r2))


@contract("C12.sound", INTERSECT)
def sound(c):
    """Reported only if no direction separates the rectangles, so that they share a point."""
    from highway_env import utils
    r1, r2, (x, y), t = pair(c, lambda a, b: c.vec("place", 2, s=(-4, 4)))
    got = utils.rotated_rectangles_intersect(r1, r2)
    # any direction lies between those of two neighbouring sides: quarter turns bring those of the second next to those of the first
    k = c.choice("between", list(range(4)))
    a, b = c.real("a", 0, s=(0, 1)), c.real("b", 0, s=(0, 1))
    sides = u2, v2 = (cos(t), sin(t)), (-sin(t), cos(t))
    flip = lambda w: (-w[0], -w[1])
    if c.fork(lt(cos(t), 0)):
        u2, v2 = flip(u2), flip(v2)
    if c.fork(lt(u2[1], 0)):
        u2, v2 = v2, flip(u2)
    m, w = [((1, 0), u2), (u2, (0, 1)), ((0, 1), v2), (v2, (-1, 0))][k]
    n = (a * m[0] + b * w[0], a * m[1] + b * w[1])
    reach = (absv(n[0]) * r1[1] + absv(n[1]) * r1[2] + absv(dot(n, sides[0])) * r2[1] + absv(dot(n, sides[1])) * r2[2]) / 2
    if c.fork(Or(Not(got))):
        return
    c.ensure("no direction separates them", le(absv(n[0] * x + n[1] * y), reach))


@contract("C12.symmetric", INTERSECT)
def symmetric(c):
    """Independent of the order in which the rectangles are given."""
    r1, r2 = rect(c, "1"), rect(c, "2")
    from highway_env import utils
    c.ensure("same both ways", Iff(utils.rotated_rectangles_intersect(r1, r2), utils.rotated_rectangles_intersect(r2, r1)))
