from contracts._common import *
from contracts.c32 import interval, planar

IV = PRED + "IntervalVehicle."


def box(c, name, n, s):
    """An interval vector of n numbers and one of its members."""
    three = [interval(c, "%s%d" % (name, k), s=s[k]) for k in range(n)]
    return [list(x) for x in zip(*three)]


def one_of_lanes(c, tag=""):
    return abstract_lane(c, tag) if c.sym else polar(c, tag)


class Lanes:
    """A network of two lanes: the one the vehicle is on and the one it follows."""

    def __init__(self, lanes):
        self.lanes = lanes
        self.graph = {"a": {"b": [lane for _, lane in sorted(lanes.items())]}}

    def get_lane(self, index):
        return self.lanes[index]


def estimated(c, tag="", road=None, speeds=(-8, 30), **attrs):
    """An interval vehicle in any state, its interval and a member of it: (vehicle, position, speed, heading)."""
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle, VehicleInterval
    v = bare(c, IntervalVehicle, tag, road=road, **attrs)
    p0, p, p1 = planar(c, "p" + tag, s=(-30, 60))
    s0, s, s1 = interval(c, "v" + tag, s=speeds)
    h0, h, h1 = interval(c, "h" + tag, s=(-4, 4))
    v.interval = object.__new__(VehicleInterval)
    v.interval.position, v.interval.speed, v.interval.heading = c.arr([list(p0), list(p1)]), c.arr([s0, s1]), c.arr([h0, h1])
    v.trajectory, v.interval_trajectory, v.longitudinal_lpv, v.lateral_lpv, v.data = [], [], None, None, {}
    return v, p, s, h


def bounds(c, what):
    lo, hi = c.real("least " + what), c.real("most " + what)
    return lo, hi


def callees(c, dt, products, sections=(), integrators=(), local=None):
    """The contracts of the interval helpers (C32) in place of their code, for the given members."""
    import highway_env.vehicle.uncertainty.prediction as m
    import numpy as np
    if not c.sym:
        return
    size = lambda x: 1 if not np.ndim(x) else len(x)

    def inside(x, i):
        if size(x) == 1 and not np.ndim(x):
            return And(le(i[0], x), le(x, i[1]))
        return And(*[And(le(i[0][k], x[k]), le(x[k], i[1][k])) for k in range(len(x))])

    c.assume(le(0, dt))
    known = lambda *facts: all(c.entails(f, 1500) for f in facts)

    def given(when, z, lo, hi):
        if known(*when):
            c.assume(And(within(z, lo, hi), within(dt * z, dt * lo, dt * hi)))

    def intervals_product(a, b):
        lo, hi = bounds(c, "product")
        n = (np.ndim(a[0]), size(a[0]))
        if (np.ndim(b[0]), size(b[0])) != n:
            raise Unsupported("another product")
        for x, y in products:
            if (np.ndim(x), size(x)) == n:
                z = x * y if not np.ndim(x) else sum(x[k] * y[k] for k in range(len(x)))
                given((inside(x, a), inside(y, b)), z, lo, hi)
        return c.arr([lo, hi])

    def vector_interval_section(v_i, direction):
        lo, hi = bounds(c, "section")
        for x in sections:
            given((inside(x, v_i),), x[0] * direction[0] + x[1] * direction[1], lo, hi)
        return c.arr([lo, hi])

    def integrator_interval(x, k):
        lo, hi = bounds(c, "change")
        for y, g in integrators:
            if known(inside(y, x), inside(g, k), le(0, k[0]), le(dt * k[1], 1)):
                c.assume(within(y - dt * g * y, x[0] + dt * lo, x[1] + dt * hi))
        return c.arr([lo, hi])

    def interval_absolute_to_local(position_i, lane):
        lon, lat = bounds(c, "longitudinal"), bounds(c, "lateral")
        for p in local or ():
            s, r = lane.local_coordinates(p)
            if known(inside(p, position_i)):
                c.assume(And(within(s, *lon), within(r, *lat)))
        return c.arr(list(lon)), c.arr(list(lat))
    for f in (intervals_product, vector_interval_section, integrator_interval, interval_absolute_to_local):
        c.patch(m, f.__name__, f)


def any_not_zero(c):
    """not_zero, where its value does not matter."""
    import highway_env.utils as u
    if not c.sym:
        return

    def not_zero(x, eps=1e-2):
        y = c.real("not zero")
        c.assume(ne(y, 0))
        return y
    c.patch(u, "not_zero", not_zero)


def scene(c, front):
    lanes = {("a", "b", 0): one_of_lanes(c, "on"), ("a", "b", 1): one_of_lanes(c, "to")}
    v, p, s, h = estimated(c)
    v.lane_index, v.lane = ("a", "b", 0), lanes["a", "b", 0]
    v.target_lane_index = c.choice("target lane", sorted(lanes))
    v.target_speed = c.real("target speed", s=(0, 40))
    a0, a, a1 = box(c, "theta a", 3, [(0, 1), (0, 1), (0, 3)])
    b0, b, b1 = box(c, "theta b", 2, [(0, 2), (0, 2)])
    v.theta_a_i, v.theta_b_i = c.arr([a0, a1]), c.arr([b0, b1])
    dt = c.real("dt", 0, s=(0, .25))
    r = road(c, Lanes(lanes), (v,))
    w = None
    if front:
        w = estimated(c, " front")
    r.neighbour_vehicles = lambda vehicle, lane_index=None: (w[0] if w else None, None)
    return v, p, s, h, a, b, dt, w, lanes


def ordered(c, i):
    return And(le(i[0], i[1]))


@contract("C45.speed", [IV + "observer_step", IV + "get_front_interval", IV + "get_followed_lanes"], seconds=600)
def speed(c):
    """Any interval, any parameters in their box, a vehicle in front (estimated as well) or none: the speed of every member after a
    step of the linear model lies in the new interval."""
    c.merge_ifs = True
    front = c.bool("vehicle in front")
    v, p, s, h, a, b, dt, w, lanes = scene(c, front)
    psi = v.lane.heading_at(v.lane.local_coordinates(v.position)[0])
    feature = [0, 0, 0]
    gap = None
    if front:
        q, sf = w[1], w[2]
        gap = q - p
        d = gap[0] * cos(psi) + gap[1] * sin(psi)
        wanted = v.DISTANCE_WANTED + v.TIME_WANTED * vmax(s, 0)
        feature = [0, vmin(sf - s, 0), vmin(d - wanted, 0)]
    error = v.target_speed - s
    any_not_zero(c)
    callees(c, dt, [(a, feature), (a[0], error)], [gap] if front else [], local=[p])
    command = a[0] * error + a[1] * feature[1] + a[2] * feature[2]
    new = s + dt * vmin(vmax(command, -v.ACC_MAX), v.ACC_MAX)
    v.observer_step(dt)
    c.ensure("below", le(v.interval.speed[0], new))
    c.ensure("above", le(new, v.interval.speed[1]))


@contract("C45.heading", [IV + "observer_step", IV + "get_followed_lanes"], seconds=600)
def heading(c):
    """Headings within half a turn of the followed lane's: the heading of every member after a step of the linear model, with a
    disturbance of at most 1 rad/s, lies in the new interval."""
    from highway_env.utils import not_zero
    c.merge_ifs = True
    v, p, s, h, a, b, dt, w, lanes = scene(c, False)
    lane = lanes[v.target_lane_index]
    psi = lane.heading_at(lane.local_coordinates(v.position)[0] + v.speed * v.PURSUIT_TAU)
    h0, h1 = v.interval.heading
    if not c.sym:
        from highway_env.utils import wrap_to_pi
        turn = psi - h
        v.interval.heading = v.interval.heading + turn
        h0, h1, h = h0 + turn, h1 + turn, h + turn
    c.require(And(le(-c.pi, h0 - psi), lt(h1 - psi, c.pi), le(dt * v.theta_b_i[1][0], 1)))
    c.require(le(0, v.theta_b_i[0][0]))
    r = lane.local_coordinates(p)[1]
    slow = not_zero(s)
    callees(c, dt, [(-r, 1 / slow), (b, [0, -r / slow])], integrators=[(h - psi, b[0])], local=[p])
    e = c.real("disturbance", -1, 1, s=(-1, 1))
    new = h + dt * (b[0] * (psi - h) - b[1] * r / slow + e)
    v.observer_step(dt)
    c.ensure("below", le(v.interval.heading[0], new))
    c.ensure("above", le(new, v.interval.heading[1]))


def extremes(c, f, h0, h, h1, top, bottom):
    """Assumed of the cosine and the sine: over an interval they reach an extreme at an end, or where they are 1 or -1."""
    for angle, sign in ((top, 1), (bottom, -1)):
        whole = -floor((angle - h0) / (2 * c.pi))       # the first turn after h0 at which it does
        c.assume(Or(le(sign * f(h), sign * f(h0)), le(sign * f(h), sign * f(h1)), le(whole, (h1 - angle) / (2 * c.pi))))


@contract("C45.position", [IV + "observer_step"], seconds=400)
def position(c):
    """The position of every member after a step along its heading, with a disturbance of at most 1 m/s along each axis, lies in
    the new interval."""
    c.merge_ifs = True
    v, p, s, h, a, b, dt, w, lanes = scene(c, False)
    any_not_zero(c)
    if c.sym:
        c.note("the cosine and the sine reach their extremes over an interval at its ends or where they are 1 or -1")
        h0, h1 = v.interval.heading
        extremes(c, cos, h0, h, h1, 0, c.pi)
        extremes(c, sin, h0, h, h1, c.pi / 2, -c.pi / 2)
    callees(c, dt, [(s, cos(h)), (s, sin(h))], local=[p])
    ex, ey = c.real("disturbance x", -1, 1, s=(-1, 1)), c.real("disturbance y", -1, 1, s=(-1, 1))
    new = [p[0] + dt * (s * cos(h) + ex), p[1] + dt * (s * sin(h) + ey)]
    v.observer_step(dt)
    for k, axis in enumerate("xy"):
        c.ensure("below along " + axis, le(v.interval.position[0][k], new[k]))
        c.ensure("above along " + axis, le(new[k], v.interval.position[1][k]))


def degenerate(i, p, speed, heading):
    return And(*[And(eq(i.position[k][0], p[0]), eq(i.position[k][1], p[1]), eq(i.speed[k], speed), eq(i.heading[k], heading)) for k in (0, 1)])


@contract("C45.certain", [IV + "__init__", IV + "create_from", PRED + "VehicleInterval.__init__", IV + "get_front_interval", BEH + "LinearVehicle.__init__"])
def certain(c):
    """A new interval vehicle's interval is its state and its own; one made from another vehicle takes over its state, target and
    parameters; of a vehicle in front the interval is used where one is estimated, otherwise its very state."""
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    from highway_env.vehicle.behavior import LinearVehicle
    net = AnyNetwork(c, lane=one_of_lanes(c))
    r = road(c, net)
    kind = c.choice("made from", ["nothing", "interval", "linear", "vehicle"])
    target, parameters = ("a", "b", 1), c.bool("own parameters")
    theta_a, theta_b, data, route = c.arr([[0, 0, 0], [1, 1, 1]]), c.arr([[0, 0], [1, 1]]), {"longitudinal": {}}, [("a", "b", 1)]
    if kind == "nothing":
        p, h, s = c.vec("position", 2), c.real("heading", s=(-4, 4)), c.real("speed", s=(-5, 30))
        u = IntervalVehicle(r, p, h, s, target, 3.5, route, timer=.5, **(dict(theta_a_i=theta_a, theta_b_i=theta_b, data=data) if parameters else {}))
        v = p
    else:
        if kind == "interval":
            v, _, _, _ = estimated(c, road=r, target_lane_index=target, target_speed=3.5, route=route, timer=.5)
            v.theta_a_i, v.theta_b_i, v.data = (theta_a, theta_b, data) if parameters else (LinearVehicle.ACCELERATION_RANGE, LinearVehicle.STEERING_RANGE, {})
        elif kind == "linear":
            v = bare(c, "LinearVehicle", road=r, target_lane_index=target, target_speed=3.5, route=route, timer=.5)
            v.data = data
        else:
            v = bare(c, "ControlledVehicle", road=r, target_lane_index=target, target_speed=3.5, route=route, timer=.5)
        p, h, s = v.position.copy(), v.heading, v.speed
        before = snap(v)
        given = v.interval if kind == "interval" else None
        r.neighbour_vehicles = lambda vehicle, lane_index=None: (v, None)
        w = bare(c, IntervalVehicle, "ego", road=r)
        i = w.get_front_interval()
        c.ensure("of a vehicle in front", i is given if kind == "interval" else degenerate(i, p, s, h))
        r.neighbour_vehicles = lambda vehicle, lane_index=None: (None, v)
        c.ensure("no vehicle in front", w.get_front_interval() is None)
        u = IntervalVehicle.create_from(v)
        c.ensure("the other is left alone", unchanged(v, before))
    c.ensure("certain of its state", degenerate(u.interval, p, s, h))
    c.ensure("its state", And(eq(u.position[0], p[0]), eq(u.position[1], p[1]), eq(u.speed, s), eq(u.heading, h)))
    c.ensure("its target", u.target_lane_index == target and u.target_speed == 3.5 and u.route == route and u.timer == .5 and u.road is r)
    own = parameters and kind in ("nothing", "interval")
    c.ensure("its parameters", u.theta_a_i is theta_a and u.theta_b_i is theta_b if own else
             bool((u.theta_a_i == LinearVehicle.ACCELERATION_RANGE).all() and (u.theta_b_i == LinearVehicle.STEERING_RANGE).all()))
    c.ensure("its data", u.data is data if own or kind == "linear" else u.data == {})
    c.ensure("nothing yet", u.trajectory == [] and u.interval_trajectory == [] and u.longitudinal_lpv is None and u.lateral_lpv is None)
    u.interval.position[0][0] = u.interval.position[0][0] - 1
    u.interval.speed[0] = u.interval.speed[0] - 1
    c.ensure("an interval of its own", And(eq(u.position[0], p[0]), eq(u.interval.position[1][0], p[0]), eq(u.speed, s)))


@contract("C45.partial", [IV + "partial_observer_step"])
def partial(c):
    """Whatever the observer makes of the two ends of an interval (any share of it): the new interval goes from the lower end of
    the one to the upper end of the other; both are observed on the vehicle's road with them in its place."""
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    r = road(c, AnyNetwork(c, lane=one_of_lanes(c)))
    v, _, _, _ = estimated(c, road=r, target_lane_index=("a", "b", 0), target_speed=c.real("target speed", s=(0, 30)), route=None, timer=.5)
    v.theta_a_i, v.theta_b_i, v.data = c.arr([[0, 0, 0], [1, 1, 1]]), c.arr([[0, 0], [1, 1]]), {}
    other = object()
    first = c.bool("first")
    r.vehicles = vehicles = [v, other] if first else [other, v]
    alpha = c.real("alpha", 0, 1, s=(0, 1)) if c.bool("alpha given") else 0
    dt = c.real("dt", 0, s=(0, .3))
    o = v.interval
    old = [c.arr(x) for x in ([list(o.position[0]), list(o.position[1])], list(o.speed), list(o.heading))]
    before = snap(v)
    log = []

    def observer_step(self, dt):
        i = self.interval
        log.append((self, dt, i.position.copy(), i.speed.copy(), i.heading.copy()))
        new, tag = [], " of %d" % len(log)
        for what in ("x", "y", "v", "h"):
            a, b = c.real("new least " + what + tag), c.real("new most " + what + tag)
            new.append((a, b))
        i.position[:, 0], i.position[:, 1] = new[0], new[1]
        i.speed, i.heading = c.arr(list(new[2])), c.arr(list(new[3]))
        self.found = new
    c.patch(IntervalVehicle, "observer_step", observer_step)
    v.partial_observer_step(dt, alpha)
    c.ensure("two ends", len(log) == 2 and log[0][0] is not log[1][0] and all(x[0] is not v for x in log))
    c.ensure("of the same duration", And(*[eq(x[1], dt) for x in log]))
    want = []
    for which in (0, 1):
        far = lambda a: (1 - alpha) * a[which] + alpha * a[1 - which]
        near = lambda a: a[which]
        want.append([[near(a), far(a)] if which == 0 else [far(a), near(a)] for a in ([e[0] for e in old[0]], [e[1] for e in old[0]], list(old[1]), list(old[2]))])
    got = [[[x[2][0][0], x[2][1][0]], [x[2][0][1], x[2][1][1]], list(x[3]), list(x[4])] for x in log]
    same = lambda g, w: And(*[eq(a, b) for gs, ws in zip(g, w) for a, b in zip(gs, ws)])
    if c.sym or alpha != 1:
        c.ensure("the ends of the interval", Or(And(same(got[0], want[0]), same(got[1], want[1])), And(same(got[1], want[0]), same(got[0], want[1]))))
    swap = not c.fork(same(got[0], want[0]))
    low, up = [x[0] for x in (log[::-1] if swap else log)]
    for w in (low, up):
        c.ensure("on the road in its place", w.road is not r and w.road.network is r.network and len(w.road.vehicles) == 2 and
                 all((a is w) if b is v else (a is b) for a, b in zip(w.road.vehicles, vehicles)))
        c.ensure("with its state and parameters", And(eq(w.position[0], v.position[0]), eq(w.position[1], v.position[1]), eq(w.heading, v.heading), eq(w.speed, v.speed),
                 w.target_lane_index == v.target_lane_index, eq(w.target_speed, v.target_speed), w.theta_a_i is v.theta_a_i, w.theta_b_i is v.theta_b_i))
    for k in (0, 1):
        c.ensure("lower end", eq(v.interval.position[0][k], low.found[k][0]))
        c.ensure("upper end", eq(v.interval.position[1][k], up.found[k][1]))
    c.ensure("speeds", And(eq(v.interval.speed[0], low.found[2][0]), eq(v.interval.speed[1], up.found[2][1])))
    c.ensure("headings", And(eq(v.interval.heading[0], vmin(low.found[3][0], up.found[3][0])), eq(v.interval.heading[1], vmax(low.found[3][1], up.found[3][1]))))
    c.ensure("the vehicle and its road are left alone", And(unchanged(v, before, ("interval",)), r.vehicles is vehicles, vehicles == ([v, other] if first else [other, v])))


@contract("C45.step", [IV + "step", IV + "store_trajectories"])
def step(c):
    """A step of a vehicle that is not crashed steps its interval once and then the vehicle; a crashed one's interval is its state
    after the step; the state and interval before it are recorded and nothing changes them later."""
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.kinematics import Vehicle
    lane = one_of_lanes(c)
    lane.speed_limit = 20
    r = road(c, AnyNetwork(c, lane=lane))
    v, _, _, _ = estimated(c, road=r, target_lane_index=("a", "b", 0), target_speed=c.real("target speed", s=(0, 30)), route=None, timer=.5)
    v.crashed, v.MAX_SPEED = c.bool("crashed"), 1000
    v.action = {"steering": c.real("steering", s=(-1, 1)), "acceleration": c.real("acceleration", s=(-5, 5))}
    dt = c.real("dt", 0, s=(0, .3))
    mode = c.choice("mode", [None, "partial", "predictor"])
    log = []

    def stepping(name):
        def f(self, dt, *a):
            log.append((name, self, dt))
            self.interval.position[0] -= 1
            self.interval.speed[1] += 1
            self.interval.heading[1] += 1
        return f
    c.patch(IntervalVehicle, "partial_observer_step", stepping("partial"))
    c.patch(IntervalVehicle, "predictor_step", stepping("predictor"))
    real = Vehicle.step

    def moved(self, dt):
        log.append(("move", self, dt))
        real(self, dt)
    c.patch(Vehicle, "step", moved)
    i = v.interval
    was = [e for a in (i.position[0], i.position[1], i.speed, i.heading) for e in a]
    p, h, s = v.position.copy(), v.heading, v.speed
    v.step(dt) if mode is None else v.step(dt, mode)
    kinds = [x[0] for x in log]
    c.ensure("the interval once, and the vehicle", sorted(kinds) == (["move"] if v.crashed else sorted([mode or "partial", "move"])) and
             (v.crashed or kinds[0] == (mode or "partial")))
    c.ensure("of the same duration", And(*[And(x[1] is v, eq(x[2], dt)) for x in log]))
    c.ensure("one more in the trajectories", len(v.trajectory) == 1 and len(v.interval_trajectory) == 1)
    t, j = v.trajectory[0], v.interval_trajectory[0]
    c.ensure("the state before", And(t is not v, eq(t.position[0], p[0]), eq(t.position[1], p[1]), eq(t.heading, h), eq(t.speed, s)))
    c.ensure("the interval before", And(*[eq(a, b) for a, b in zip([e for a in (j.position[0], j.position[1], j.speed, j.heading) for e in a], was)]))
    if v.crashed:
        c.ensure("a crashed vehicle's interval", degenerate(v.interval, v.position, v.speed, v.heading))
    else:
        c.ensure("what the interval's step made of it", v.interval is i)


@contract("C45.lanes", [IV + "get_followed_lanes", ROAD + "RoadNetwork.side_lanes"])
def lanes(c):
    """The lanes that could be followed: the target lane; or it and those next to it; or it and the one to its right if there is one
    within reach (twice the target lane if there is none and duplicates are kept)."""
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    n = c.choice("lanes", [1, 2, 3])
    k = c.choice("lane", list(range(n)))
    net = network(c, {("a", "b"): [one_of_lanes(c, str(i)) for i in range(n)]})
    v = bare(c, IntervalVehicle, road=road(c, net), target_lane_index=("a", "b", k))
    reach = c.bool("reachable")
    for i, lane in enumerate(net.graph["a"]["b"]):
        lane.is_reachable_from = lambda position, i=i: reach and position is v.position and i == k + 1
    model, squeeze = c.choice("model", [None, "model", "all", "right"]), c.bool("squeezed")
    got = v.get_followed_lanes(model, squeeze) if model else v.get_followed_lanes()
    at = lambda i: ("a", "b", i)
    if model in (None, "model"):
        want = [at(k)]
    elif model == "all":
        want = [at(i) for i in range(n) if abs(i - k) <= 1]
    else:
        want = [at(k)] + ([at(k + 1)] if k + 1 < n and reach else [] if squeeze else [at(k)])
    c.ensure("the lanes", sorted(got) == sorted(want))


@contract("C45.collision", [IV + "check_collision"])
def collision(c):
    """With a vehicle under control: crashed if the body at the nearest position of the interval overlaps the (0.9 times) other's;
    with anything else: as any other vehicle."""
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    from highway_env.vehicle.kinematics import Vehicle
    import highway_env.utils as u
    v, p, s, h = estimated(c, road=None)
    v.COLLISIONS_ENABLED, v.crashed = c.bool("collisions"), c.bool("crashed")
    kind = c.choice("other", ["MDPVehicle", "IDMVehicle", "Obstacle"])
    asked = []
    c.patch(Vehicle, "check_collision", lambda self, other: asked.append((self, other)))
    w = obstacle(c) if kind == "Obstacle" else bare(c, kind, "other")
    calls = []

    def rotated_rectangles_intersect(rect1, rect2):
        calls.append((rect1, rect2))
        calls.append(c.symbool("overlap"))
        return calls[-1]
    c.patch(u, "rotated_rectangles_intersect", rotated_rectangles_intersect)
    before, others = snap(v), snap(w)
    lo, hi = v.interval.position
    v.check_collision(w)
    if kind != "MDPVehicle":
        c.ensure("as any vehicle", asked == [(v, w)] and not calls and unchanged(v, before) is not False)
        return
    c.ensure("not as any vehicle", not asked)
    c.ensure("only enabled, and once", Or(not calls, And(v.COLLISIONS_ENABLED, before["crashed"] is False)))
    nearest = [vmin(vmax(w.position[k], lo[k]), hi[k]) for k in (0, 1)]
    away = Or(*[Or(lt(w.position[k], lo[k] - v.LENGTH), lt(hi[k] + v.LENGTH, w.position[k])) for k in (0, 1)])
    if not calls:
        c.ensure("no vehicle near", Or(away, not v.COLLISIONS_ENABLED, before["crashed"]))
        c.ensure("nothing happens", And(unchanged(v, before), unchanged(w, others)))
        return
    (r1, r2), hit = calls
    body = lambda r, q, l, wd, heading: And(eq(r[0][0], q[0]), eq(r[0][1], q[1]), eq(r[1], l), eq(r[2], wd), eq(r[3], heading))
    this = lambda r: body(r, nearest, v.LENGTH, v.WIDTH, v.heading)
    that = lambda r: body(r, others["position"], .9 * w.LENGTH, .9 * w.WIDTH, w.heading)
    c.ensure("the bodies", Or(And(this(r1), that(r2)), And(this(r2), that(r1))))
    if c.fork(hit):
        c.ensure("both crashed", v.crashed is True and w.crashed is True)
        least = vmin(before["speed"], others["speed"])
        c.ensure("at the lower speed", And(eq(v.speed, least), eq(w.speed, least)))
        c.ensure("nothing else", And(unchanged(v, before, ("crashed", "speed")), unchanged(w, others, ("crashed", "speed"))))
    else:
        c.ensure("nothing happens", And(unchanged(v, before), unchanged(w, others)))


@contract("C45.model", [IV + "predictor_init", IV + "longitudinal_matrix_polytope", IV + "lateral_matrix_polytope", IV + "parameter_box_to_polytope",
                        BEH + "LinearVehicle.longitudinal_structure", BEH + "LinearVehicle.lateral_structure"])
def model(c):
    """The predictors built for a state: the linear system of the nominal matrix, centre, control and matrices of the polytope is,
    for any parameters in their box, the linear model (speed: towards the target speed, towards a slower front vehicle's; heading
    and lateral position: towards the lane); they start from that state seen from the target lane, with one predictor each."""
    import itertools
    import highway_env.vehicle.uncertainty.prediction as m
    import numpy as np
    front = c.choice("front", ["none", "vehicle", "estimated"])
    lane, w = one_of_lanes(c), None
    r = road(c, AnyNetwork(c, lane=lane))
    v, p, s, h = estimated(c, road=r, target_lane_index=("a", "b", 0), target_speed=c.real("target speed", s=(0, 30)))
    p, s, h = v.position, v.speed, v.heading          # certain of its state
    v.interval = m.VehicleInterval(v)
    a0, a, a1 = box(c, "theta a", 3, [(0, 1), (0, 1), (0, 3)])
    b0, b, b1 = box(c, "theta b", 2, [(0, 2), (0, 2)])
    v.theta_a_i, v.theta_b_i = c.arr([a0, a1]), c.arr([b0, b1])
    if front == "vehicle":
        w = bare(c, "LinearVehicle", " front", road=r, target_lane_index=("a", "b", 0), target_speed=3, route=None, timer=.5)
    elif front == "estimated":
        w, _, _, _ = estimated(c, " front", road=r)
        w.interval = m.VehicleInterval(w)
    r.neighbour_vehicles = lambda vehicle, lane_index=None: (w, None)
    gap = c.real("gap", s=(-10, 60))
    v.lane_distance_to = lambda other, lane=None: gap
    built = []

    class LPV:
        def __init__(self, x0, a0, da, b=None, d=None, omega_i=None, u=None, k=None, center=None, x_i=None):
            self.x0, self.a0, self.da, self.b, self.d, self.omega_i, self.u, self.k, self.center, self.x_i = x0, a0, da, b, d, omega_i, u, k, center, x_i
            built.append(self)
    c.patch(m, "LPV", LPV)

    def polytope(parametrized_f, params_intervals):        # its contract (C33.polytope), without leaving out equal vertices
        f, (lo, hi) = parametrized_f, params_intervals
        mean = f(c.arr([(x + y) / 2 for x, y in zip(lo, hi)]))
        return mean, [f(c.arr([hi[k] if top else lo[k] for k, top in enumerate(corner)])) - mean for corner in itertools.product((0, 1), repeat=len(lo))]
    c.patch(m, "polytope", polytope)
    if c.sym:                                          # the contract of the conversion to local coordinates: exact for points
        def interval_absolute_to_local(position_i, lane):
            lo, hi = lane.local_coordinates(position_i[0]), lane.local_coordinates(position_i[1])
            return c.arr([lo[0], hi[0]]), c.arr([lo[1], hi[1]])
        c.patch(m, "interval_absolute_to_local", interval_absolute_to_local)
    v.predictor_init()
    c.ensure("two predictors", len(built) == 2 and v.longitudinal_lpv in built and v.lateral_lpv in built and v.longitudinal_lpv is not v.lateral_lpv)
    lon, lat = v.longitudinal_lpv, v.lateral_lpv
    x, y = lane.local_coordinates(p)
    turn = h - lane.heading_at(x)
    if front == "none":
        fx, fs = 0, 0
    else:
        fx, fs = lane.local_coordinates(w.position)[0], w.speed
    for name, l, want in (("longitudinal", lon, [x, fx, s, fs]), ("lateral", lat, [y, turn])):
        c.ensure(name + " initial state", And(len(l.x0) == len(want), *[eq(e, f) for e, f in zip(l.x0, want)], l.x_i is None, l.k is None))
    # parameters of the box, and the combination of the polytope's vertices they are (the corners', multilinear in its coordinates)
    def weight(corner, shares):
        wt = 1
        for k, e in zip(corner, shares):
            wt = wt * (e if k else 1 - e)
        return wt
    for name, l, lo, hi in (("longitudinal", lon, a0, a1), ("lateral", lat, b0, b1)):
        n, q = len(l.x0), len(lo)
        shares = [c.real("%s share%d" % (name, k), 0, 1, s=(0, 1)) for k in range(q)]
        theta = [lo[k] + shares[k] * (hi[k] - lo[k]) for k in range(q)]
        weights = [weight(corner, shares) for corner in itertools.product((0, 1), repeat=q)]
        z = [c.real("%s state%d" % (name, k), s=(-20, 20)) for k in range(n)]
        e = [c.real("%s disturbance" % name, -1, 1, s=(-1, 1))]
        off = [z[k] - l.center[k] for k in range(n)]
        rows = lambda mtx, i: sum(mtx[i][k] * off[k] for k in range(n))
        for i in range(n):
            got = rows(l.a0, i) + sum(wt * rows(l.da[j], i) for j, wt in enumerate(weights)) + sum(l.b[i][k] * l.u[k][0] for k in range(n)) + l.d[i][0] * e[0]
            if name == "longitudinal":
                on = front != "none" and c.fork(le(w.speed, s))
                near = front != "none" and c.fork(eq(gap, v.DISTANCE_WANTED + v.TIME_WANTED * s))
                want = [z[2] + e[0], z[3], theta[0] * (v.target_speed - z[2]) + (theta[1] * (z[3] - z[2]) if on else 0) +
                        (theta[2] * (z[1] - z[0] - v.DISTANCE_WANTED - v.TIME_WANTED * z[2]) if near else 0), theta[0] * (v.target_speed - z[3])][i]
            else:
                want = [z[1] + e[0], -theta[0] * z[1] - theta[1] * z[0]][i]
            c.ensure("%s model, row %d" % (name, i), eq(got, want))
        size = 1 if name == "longitudinal" else .5
        c.ensure(name + " disturbance", And(eq(l.omega_i[0][0], -size), eq(l.omega_i[1][0], size)))
    v.predictor_init()
    c.ensure("made once", len(built) == 2 and v.longitudinal_lpv is lon and v.lateral_lpv is lat)


@contract("C45.predictor", [IV + "predictor_step"])
def predictor(c):
    """A step of the predictor steps each of the two systems once; whatever their new intervals, the vehicle's contains the position,
    speed and heading of every pair of their members (straight lanes); when the target lane has changed, before the step, the lateral
    interval and the longitudinal positions are moved as a whole to where the vehicle's interval is seen from the new lane."""
    import highway_env.vehicle.uncertainty.prediction as m
    lane = along_x(c) if not c.sym else one_of_lanes(c)
    other = one_of_lanes(c, "before")
    net = Lanes({("a", "b", 0): lane, ("a", "b", 1): other})
    r = road(c, net)
    v, p, s, h = estimated(c, road=r, target_lane_index=("a", "b", 0), target_speed=3, route=None, timer=.5)
    changed = c.bool("target lane changed")
    v.previous_target_lane_index = ("a", "b", 1) if changed else ("a", "b", 0)
    dt = c.real("dt", 0, s=(0, .3))
    log = []

    class System:
        """Any predictor in coordinates of its own: a shift of the local ones."""

        def __init__(self, name, n):
            self.name = name
            self.shift = [c.real("%s centre%d" % (name, k), s=(-3, 3)) for k in range(n)]
            three = [interval(c, "%s now%d" % (name, k), s=(-20, 40)) for k in range(n)]
            self.x_i_t = self.first = c.arr([[t[0] for t in three], [t[2] for t in three]])
            self.next = [interval(c, "%s next%d" % (name, k), s=(-20, 40)) for k in range(n)]

        def step(self, dt):
            log.append((self.name, dt, c.arr([list(self.x_i_t[0]), list(self.x_i_t[1])])))
            self.x_i_t = c.arr([[t[0] for t in self.next], [t[2] for t in self.next]])

        def change_coordinates(self, value, matrix=False, back=False, interval=False, offset=True):
            if matrix or not interval or not offset:
                raise Unsupported("another change of coordinates")
            sign = 1 if back else -1
            return c.arr([[value[b][k] + sign * self.shift[k] for k in range(len(self.shift))] for b in (0, 1)])
    lon, lat = System("longitudinal", 4), System("lateral", 2)
    v.longitudinal_lpv, v.lateral_lpv = lon, lat
    inits = []
    v.predictor_init = lambda: inits.append(len(log))
    x, y = [sys.next[0][1] + sys.shift[0] for sys in (lon, lat)]
    xs = [lon.next[0][k] + lon.shift[0] for k in (0, 2)]
    c.require(within(x, xs[0], xs[1]))
    asked = []
    if c.sym:
        def interval_absolute_to_local(position_i, lane):
            b, d = bounds(c, "longitudinal"), bounds(c, "lateral")
            asked.append((lane, [list(position_i[0]), list(position_i[1])], b, d))
            return c.arr(list(b)), c.arr(list(d))

        def interval_local_to_absolute(longitudinal_i, lateral_i, lane):
            b, d = bounds(c, "x"), bounds(c, "y")
            q = lane.position(x, y)
            if c.entails(And(within(x, *longitudinal_i), within(y, *lateral_i))):
                c.assume(And(within(q[0], *b), within(q[1], *d)))
            return c.arr([[b[0], d[0]], [b[1], d[1]]])
        c.patch(m, "interval_absolute_to_local", interval_absolute_to_local)
        c.patch(m, "interval_local_to_absolute", interval_local_to_absolute)
    else:
        from highway_env.interval import interval_absolute_to_local as seen
        b, d = seen(v.interval.position, lane)
        asked.append((lane, None, b, d))
    old = [[list(v.interval.position[0]), list(v.interval.position[1])], list(v.interval.heading)]
    v.predictor_step(dt)
    c.ensure("the predictors first", inits[:1] == [0])
    c.ensure("one step each", sorted(e[0] for e in log) == ["lateral", "longitudinal"])
    c.ensure("of the same duration", And(*[eq(e[1], dt) for e in log]))
    started = {e[0]: e[2] for e in log}
    if not changed:
        for sys in (lon, lat):
            c.ensure("from where they were", And(*[eq(a, b) for k in (0, 1) for a, b in zip(started[sys.name][k], sys.first[k])]))
    else:
        c.ensure("seen from the new lane", len(asked) == 1 and asked[0][0] is lane)
        if c.sym:
            c.ensure("where it is", And(*[eq(a, b) for k in (0, 1) for a, b in zip(asked[0][1][k], old[0][k])]))
        b, d = asked[0][2:]
        mid = lambda i: (i[0] + i[1]) / 2
        turn = mid(old[1]) - lane.heading_at(mid(b))
        want = {"longitudinal": [mid(b) - lon.shift[0]] + [mid([lon.first[0][k], lon.first[1][k]]) for k in (1, 2, 3)],
                "lateral": [mid(d) - lat.shift[0], turn - lat.shift[1]]}
        for sys in (lon, lat):
            got = started[sys.name]
            for k in range(len(sys.shift)):
                c.ensure("moved there", eq(mid([got[0][k], got[1][k]]), want[sys.name][k]))
                c.ensure("as a whole", eq(got[1][k] - got[0][k], sys.first[1][k] - sys.first[0][k]))
    c.ensure("the lane it is seen from", v.previous_target_lane_index == ("a", "b", 0))
    i = v.interval
    q = lane.position(x, y)
    for k in (0, 1):
        c.ensure("positions", within(q[k], i.position[0][k], i.position[1][k]))
    c.ensure("speeds", within(lon.next[2][1] + lon.shift[2], i.speed[0], i.speed[1]))
    around = lane.heading_at((xs[0] + xs[1]) / 2)
    c.ensure("headings", within(lat.next[1][1] + lat.shift[1] + around, i.heading[0], i.heading[1]))


@contract("C45.regressed", [EST + "RegressionVehicle.polytope_from_estimation", EST + "RegressionVehicle.longitudinal_matrix_polytope",
                            EST + "RegressionVehicle.lateral_matrix_polytope", BEH + "LinearVehicle.longitudinal_structure", BEH + "LinearVehicle.lateral_structure"])
def regressed(c):
    """A vehicle whose parameters are estimated: centre and vertices of its systems are the linear model's matrices at the centre and
    the vertices of the parameters' confidence polytope, given the data of that system and the box; without data, those of the box."""
    import highway_env.vehicle.uncertainty.estimation as e
    r = road(c, AnyNetwork(c, lane=one_of_lanes(c)))
    w = bare(c, "LinearVehicle", " front") if c.bool("vehicle in front") else None
    r.neighbour_vehicles = lambda vehicle, lane_index=None: (w, None)
    v = bare(c, e.RegressionVehicle, road=r, target_lane_index=("a", "b", 0), target_speed=3, route=None, timer=.5)
    gap = c.real("gap", s=(-10, 60))
    v.lane_distance_to = lambda other, lane=None: gap
    v.theta_a_i, v.theta_b_i = "box a", "box b"
    known = c.choice("data", ["none", "longitudinal", "lateral", "both"])
    v.data = {k: {"features": [k], "outputs": [k]} for k in ("longitudinal", "lateral") if known in (k, "both")}
    which = c.choice("system", ["longitudinal", "lateral"])
    q = 3 if which == "longitudinal" else 2
    theta = [c.real("theta%d" % k, s=(-1, 2)) for k in range(q)]
    n = c.choice("vertices", [0, 1, 3])
    d_theta = [[c.real("d theta%d_%d" % (j, k), s=(-1, 1)) for k in range(q)] for j in range(n)]
    asked, boxes = [], []

    def confidence_polytope(data, parameter_box):
        asked.append((data, parameter_box))
        return c.arr(theta), c.arr(d_theta) if n else [], "gramian", "radius"

    def parameter_box_to_polytope(parameter_box, structure):
        boxes.append((parameter_box, structure()))
        return "centre", "vertices"
    c.patch(e, "confidence_polytope", confidence_polytope)
    c.patch(e.IntervalVehicle, "parameter_box_to_polytope", staticmethod(parameter_box_to_polytope))
    structure = v.longitudinal_structure if which == "longitudinal" else v.lateral_structure
    a, phi = structure()
    got = v.longitudinal_matrix_polytope() if which == "longitudinal" else v.lateral_matrix_polytope()
    box = "box a" if which == "longitudinal" else "box b"
    same = lambda x, y: And(*[eq(x[i][j], y[i][j]) for i in range(len(a)) for j in range(len(a))])
    if known not in (which, "both"):
        c.ensure("without data", len(boxes) == 1 and not asked and boxes[0][0] is box and tuple(got) == ("centre", "vertices"))
        c.ensure("of this system", And(same(boxes[0][1][0], a), len(boxes[0][1][1]) == q, *[same(x, y) for x, y in zip(boxes[0][1][1], phi)]))
        return
    c.ensure("its data and box", len(asked) == 1 and asked[0][0] is v.data[which] and asked[0][1] is box and not boxes)
    a0, da = got
    mix = lambda t: [[sum(t[k] * phi[k][i][j] for k in range(q)) for j in range(len(a))] for i in range(len(a))]
    centre = mix(theta)
    c.ensure("centre", same(a0, [[a[i][j] + centre[i][j] for j in range(len(a))] for i in range(len(a))]))
    c.ensure("vertices", And(len(da) == n, *[same(x, mix(t)) for x, t in zip(da, d_theta)]))
