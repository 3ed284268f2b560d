from contracts._common import *


def _tangent(c, lane, s):
    """The derivative of the centre line is a positive multiple of (cos h, sin h)."""
    h = lane.heading_at(s)
    if c.sym:
        p = lane.position(s, 0)
        dx, dy = T.deriv(p[0], s), T.deriv(p[1], s)
    else:
        e = 1e-5
        p, q = lane.position(s - e, 0), lane.position(s + e, 0)
        dx, dy = (q[0] - p[0]) / (2 * e), (q[1] - p[1]) / (2 * e)
    c.ensure("parallel to the tangent", eq(dx * sin(h), dy * cos(h)))
    c.ensure("in the direction of travel", lt(0, dx * cos(h) + dy * sin(h)))


@contract("C02.straight", [LANE + "StraightLane.heading_at", LANE + "StraightLane.position"])
def t_straight(c):
    """Straight lanes: heading is the tangent direction."""
    _tangent(c, straight(c), c.real("s", s=(-20, 60)))


@contract("C02.sine", [LANE + "SineLane.heading_at", LANE + "SineLane.position"], tol=1e-4, timeout=25000)
def t_sine(c):
    """Sinusoidal lanes: heading is the tangent direction."""
    _tangent(c, sine(c), c.real("s", s=(-20, 60)))


@contract("C02.circular", [LANE + "CircularLane.heading_at", LANE + "CircularLane.position"], tol=1e-4)
def t_circ(c):
    """Circular lanes: heading is the tangent direction."""
    _tangent(c, circular(c), c.real("s", s=(-60, 60)))


@contract("C02.width", [LANE + "StraightLane.width_at", LANE + "CircularLane.width_at"])
def width(c):
    """Reported width is the configured width everywhere."""
    lane = any_lane(c)
    w = lane.width
    c.ensure("width", eq(lane.width_at(c.real("s", s=(-60, 60))), w))
    from highway_env.road.lane import StraightLane, CircularLane
    w = c.pos("w", s=(1, 8))
    a, b = c.vec("a", 2), c.vec("b", 2)
    c.require(ne(a[0], b[0]))
    c.ensure("as configured", And(eq(StraightLane(a, b, w).width_at(c.real("s1")), w),
                                  eq(CircularLane(a, 10, 0, 1, True, w).width_at(c.real("s2")), w)))
