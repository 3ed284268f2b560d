from contracts._common import *


def _lane(c, **kw):
    return abstract_lane(c, **kw)


@contract("C03.on_lane", [LANE + "AbstractLane.on_lane"])
def on_lane(c):
    """On the lane exactly when |lateral| <= width/2 + margin and longitudinal in [-5, length + 5)."""
    lane = _lane(c)
    p, m = c.vec("p", 2, s=(-60, 60)), c.real("margin", s=(-1, 3))
    s, r = lane.local_coordinates(p)
    w = lane.width_at(s)
    want = And(le(absv(r), w / 2 + m), le(-5, s), lt(s, lane.length + 5))
    c.ensure("on the lane", Iff(lane.on_lane(p, margin=m), want))
    c.ensure("default margin 0", Iff(lane.on_lane(p), And(le(absv(r), w / 2), le(-5, s), lt(s, lane.length + 5))))
    c.ensure("same answer with the coordinates given", Iff(lane.on_lane(p, s, r, m), want))


@contract("C03.reachable", [LANE + "AbstractLane.is_reachable_from"])
def reachable(c):
    """Reachable exactly when not forbidden, |lateral| <= 2 widths and longitudinal in [0, length + 5)."""
    lane = _lane(c, forbidden=c.bool("forbidden"))
    p = c.vec("p", 2, s=(-60, 60))
    s, r = lane.local_coordinates(p)
    c.ensure("reachable", Iff(lane.is_reachable_from(p), And(not lane.forbidden, le(absv(r), 2 * lane.width_at(s)), le(0, s),
                                                             lt(s, lane.length + 5))))


@contract("C03.after_end", [LANE + "AbstractLane.after_end"])
def after_end(c):
    """Past the end exactly when the longitudinal coordinate exceeds length - 2.5."""
    lane = _lane(c)
    p = c.vec("p", 2, s=(-60, 60))
    s, r = lane.local_coordinates(p)
    want = lt(lane.length - 2.5, s)
    c.ensure("after end", Iff(lane.after_end(p), want))
    c.ensure("same answer with the coordinates given", Iff(lane.after_end(p, s, r), want))


@contract("C03.distance", [LANE + "AbstractLane.distance", LANE + "AbstractLane.distance_with_heading", UTIL + "wrap_to_pi"])
def distance(c):
    """|lateral| + overshoot beyond either end (+ weight * absolute angle difference in [0, pi])."""
    lane = _lane(c)
    p = c.vec("p", 2, s=(-60, 60))
    s, r = lane.local_coordinates(p)
    want = absv(r) + vmax(s - lane.length, 0) + vmax(-s, 0)
    c.ensure("distance", eq(lane.distance(p), want))
    c.ensure("no heading given", eq(lane.distance_with_heading(p, None), want))
    h, wt = c.real("h", s=(-9, 9)), c.real("weight", s=(0, 3))
    d = lane.distance_with_heading(p, h, wt)
    a = absv(wrapped(h - lane.heading_at(s), c))
    c.ensure("angle difference in [0, pi]", within(a, 0, c.pi))
    c.ensure("heading-weighted distance", eq(d, want + wt * a))
    c.ensure("default weight 1", eq(lane.distance_with_heading(p, h), want + a))
