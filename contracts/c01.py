from contracts._common import *


def _frame(c, lane, s, r, circ=False):
    s2, r2 = lane.local_coordinates(lane.position(s, r))
    c.ensure("local -> world -> local", And(eq(s2, s), eq(r2, r)))


def _back(c, lane, p):
    if c.bool("asked before"):      # an array that held another position before, like a vehicle's
        q = c.vec("earlier", 2, s=(-60, 60))
        lane.local_coordinates(q)
        q[0], q[1] = p[0], p[1]
        p = q
    s, r = lane.local_coordinates(p)
    q = lane.position(s, r)
    c.ensure("world -> local -> world", And(eq(q[0], p[0]), eq(q[1], p[1])))


@contract("C01.straight-local", [LANE + "StraightLane.position", LANE + "StraightLane.local_coordinates"])
def straight_local(c):
    """Straight lanes: local -> world -> local is the identity."""
    lane = straight(c)
    _frame(c, lane, c.real("s", s=(-20, 60)), c.real("r", s=(-10, 10)))


@contract("C01.straight-world", [LANE + "StraightLane.position", LANE + "StraightLane.local_coordinates"])
def straight_world(c):
    """Straight lanes: world -> local -> world is the identity."""
    _back(c, straight(c), c.vec("p", 2, s=(-60, 60)))


@contract("C01.sine-local", [LANE + "SineLane.position", LANE + "SineLane.local_coordinates"])
def sine_local(c):
    """Sinusoidal lanes: local -> world -> local is the identity."""
    _frame(c, sine(c), c.real("s", s=(-20, 60)), c.real("r", s=(-10, 10)))


@contract("C01.sine-world", [LANE + "SineLane.position", LANE + "SineLane.local_coordinates"])
def sine_world(c):
    """Sinusoidal lanes: world -> local -> world is the identity."""
    _back(c, sine(c), c.vec("p", 2, s=(-60, 60)))


@contract("C01.circular-local", [LANE + "CircularLane.position", LANE + "CircularLane.local_coordinates",
                                 UTIL + "wrap_to_pi"])
def circular_local(c):
    """Circular lanes: local -> world -> local is the identity within half a turn of the start, short of the centre."""
    lane = circular(c)
    s, r = c.real("s", s=(-60, 60)), c.real("r", s=(-6, 6))
    turn = lane.direction * s / lane.radius
    c.require(And(lt(-c.pi, turn), lt(turn, c.pi), lt(lane.direction * r, lane.radius)))
    _frame(c, lane, s, r)


@contract("C01.circular-world", [LANE + "CircularLane.position", LANE + "CircularLane.local_coordinates",
                                 UTIL + "wrap_to_pi"])
def circular_world(c):
    """Circular lanes: world -> local -> world is the identity away from the centre."""
    lane = circular(c)
    p = c.vec("p", 2, s=(-60, 60))
    c.require(Or(ne(p[0], lane.center[0]), ne(p[1], lane.center[1])))
    _back(c, lane, p)
    s, r = lane.local_coordinates(p)
    turn = lane.direction * s / lane.radius
    c.ensure("within half a turn of the start", And(le(-c.pi, turn), le(turn, c.pi)))


@contract("C01.ends", [LANE + "StraightLane.position", LANE + "SineLane.position", LANE + "CircularLane.position"])
def ends(c):
    """Longitudinal 0 and length on the centre line are the declared end points."""
    kind = c.choice("kind", list(KINDS))
    lane = KINDS[kind](c)
    a, b = lane.position(0, 0), lane.position(lane.length, 0)
    if kind == "circular":
        for q, ph in ((a, lane.start_phase), (b, lane.end_phase)):
            c.ensure("end points", eq(q, [lane.center[0] + lane.radius * cos(ph), lane.center[1] + lane.radius * sin(ph)]))
    else:
        off0 = offL = 0
        if kind == "sine":
            off0 = lane.amplitude * sin(lane.phase)
            offL = lane.amplitude * sin(lane.pulsation * lane.length + lane.phase)
        d = lane.end - lane.start
        n = norm2(d)
        for q, p, off in ((a, lane.start, off0), (b, lane.end, offL)):
            c.ensure("end points", eq(q, [p[0] - off * d[1] / n, p[1] + off * d[0] / n]))


@contract("C01.right-hand", [LANE + "StraightLane.position", LANE + "SineLane.position", LANE + "CircularLane.position"])
def right_hand(c):
    """Lateral offsets are measured to the driver's right (y down): 90 degrees clockwise from the lane direction."""
    kind = c.choice("kind", list(KINDS))
    lane = KINDS[kind](c)
    s, r = c.real("s", s=(-20, 60)), c.real("r", s=(-5, 5))
    h = lane.heading if kind == "sine" else lane.heading_at(s)
    q, p = lane.position(s, r), lane.position(s, 0)
    c.ensure("to the right", eq([q[0] - p[0], q[1] - p[1]], [-r * sin(h), r * cos(h)]))
