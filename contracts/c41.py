from contracts._common import *
from contracts.c27 import env_of

HW = ENVS + "highway_env:HighwayEnv"
TW = ENVS + "two_way_env:TwoWayEnv"
ME = ENVS + "merge_env:MergeEnv"
RO = ENVS + "roundabout_env:RoundaboutEnv"
PA = ENVS + "parking_env:ParkingEnv"
SU = ENVS + "summon_env:SummonEnv"
LK = ENVS + "lane_keeping_env:LaneKeepingEnv"
NET = ROAD + "RoadNetwork"


class Car:
    """A vehicle as the scene asks for it."""
    log = []

    def __init__(self, road, position, heading=0, speed=0, **more):
        self.road, self.position, self.heading, self.speed, self.more = road, position, heading, speed, more
        self.on, self.to, self.random = None, [], 0
        self.target_lane_index = self.target_speed = None
        self.crashed = False
        Car.log.append(self)

    @classmethod
    def make_on_lane(cls, road, lane_index, longitudinal, speed=None):
        v = cls(road, None, None, speed)
        v.on = lane_index, longitudinal
        return v

    @classmethod
    def create_random(cls, road, speed=None, lane_id=None, spacing=1):
        v = cls(road, None, None, speed)
        v.on = "random", lane_id, spacing
        return v

    def plan_route_to(self, destination):
        self.to.append(destination)
        return self

    def randomize_behavior(self):
        self.random += 1


class Other(Car):
    pass


def scene(c, cls, **config):
    """The environment, with the kinds of its controlled and other vehicles recorded."""
    import types
    from highway_env import utils
    import highway_env.envs as E
    from highway_env.vehicle.controller import MDPVehicle
    e = env_of(c, cls, None, **config)
    e.controlled_vehicles = []
    e.action_type = types.SimpleNamespace(vehicle_class=Car)
    Car.log = []
    e.config["other_vehicles_type"] = "the other kind"
    c.patch(utils, "class_from_path", lambda path: Other if path == "the other kind" else None)
    for name in ("SPEED_MIN", "SPEED_MAX", "SPEED_COUNT"):
        c.patch(MDPVehicle, name, getattr(MDPVehicle, name))
    return e


def lanes_of(net):
    return {(a, b): ls for a in net.graph for b, ls in net.graph[a].items()}


def joined(c, have, pairs):
    """each lane ends where the other begins, in its direction"""
    for a, b in pairs:
        l, n = have[a[:2]][a[2]], have[b[:2]][b[2]]
        p, q = l.position(l.length, 0), n.position(0, 0)
        c.ensure("ends where the next begins", And(eq(p[0], q[0]), eq(p[1], q[1])))
        d = l.heading_at(l.length) - n.heading_at(0)
        c.ensure("in the same direction", And(eq(cos(d), 1), eq(sin(d), 0)))


def on_line(c, v, lane, s):
    """v is at s on the centre line, heading along the lane"""
    p = lane.position(s, 0)
    return And(eq(v.position[0], p[0]), eq(v.position[1], p[1]), eq(v.heading, lane.heading_at(s)))


@contract("C41.straight", [NET + ".straight_road_network", NET + ".add_lane"])
def straight_road(c):
    """Any number of lanes, length and angle: the lanes of one road are parallel, of that length, one lane width apart, side by
    side to the right; the outer lines are continuous."""
    from highway_env.road.road import RoadNetwork
    from highway_env.road.lane import LineType
    n = c.int("lanes", 1, s=(1, 6))
    length = c.pos("length", s=(1, 1000))
    a = c.real("angle", s=(-4, 4))
    added = []

    def check(k):
        if len(added) != 1:
            return [("one lane", False)]
        (x, y, l) = added[0]
        s, r = T.var("any s", False) if c.sym else 10, T.var("any r", False) if c.sym else 1
        p = l.position(s, r)
        off = k * 4 + r
        want = [s * cos(a) + off * sin(a), -s * sin(a) + off * cos(a)]
        left, right = l.line_types
        ok = [left == (LineType.CONTINUOUS_LINE if first else LineType.STRIPED) for first in (True, False)]
        last = [right == (LineType.CONTINUOUS_LINE if end else LineType.NONE) for end in (True, False)]
        return [("of the one road", x == "0" and y == "1"), ("side by side", And(eq(p[0], want[0]), eq(p[1], want[1]))),
                ("length", eq(l.length, length)), ("width", eq(l.width, 4)),
                ("lines", And(Implies(eq(k, 0), ok[0]), Implies(ne(k, 0), ok[1]), Implies(eq(k, n - 1), last[0]), Implies(ne(k, n - 1), last[1])))]
    loop = c.loops["many"] = each(c, lambda: added.clear(), check)
    real = RoadNetwork.add_lane

    def add_lane(self, _from, _to, lane):
        added.append((_from, _to, lane))
        real(self, _from, _to, lane)
    c.patch(RoadNetwork, "add_lane", add_lane)
    net = RoadNetwork.straight_road_network(n, length=length, angle=a)
    if c.sym:
        c.ensure("as many lanes as asked for", loop.over == 1)
    else:
        done = list(added)
        c.ensure("as many lanes as asked for", len(done) == n and [x[2] for x in done] == net.graph["0"]["1"])
        for k in range(n):
            added[:] = [done[k]]
            for label, b in check(k):
                c.ensure(label, b)
    c.ensure("no other road", list(net.graph) in ([], ["0"]))


@contract("C41.highway", [HW + "._create_road", HW + "._create_vehicles", HW + "._reset"])
def highway(c):
    """Any numbers of lanes and vehicles: a straight road of the configured number of lanes; the controlled vehicles first, at
    25 m/s on the configured lane with the configured spacing, then the others at the configured density; each once, in order."""
    from highway_env.road.road import RoadNetwork
    lanes, k, m = c.int("lanes", 1, s=(1, 5)), c.int("controlled", 0, s=(0, 4)), c.int("others", 0, s=(0, 4))
    density, spacing = c.pos("density", s=(.2, 4)), c.pos("spacing", s=(.2, 4))
    first = c.choice("lane", [None, 0, 2])
    e = scene(c, "HighwayEnv", lanes_count=lanes, controlled_vehicles=k, vehicles_count=m, vehicles_density=density,
              ego_spacing=spacing, initial_lane_id=first, show_trajectories=c.choice("history", [False, True]))
    asked = []
    net = RoadNetwork()
    # the default length and angle
    c.patch(RoadNetwork, "straight_road_network", staticmethod(lambda lanes=4, length=10000, angle=0: (asked.append((lanes, length, angle)), net)[1]))
    phases = []

    def spec(cc, seq, active, j):
        def start():
            if e.road is not None:
                phases.append((list(e.controlled_vehicles), list(e.road.vehicles)))
                e.controlled_vehicles, e.road.vehicles = [], []
            Car.log.clear()
        s = each(c, start, lambda i: check(j, list(Car.log), e.controlled_vehicles, e.road.vehicles))
        s.phase = j
        loops.append(s)
        return s
    loops = []

    def check(j, made, controlled, traffic):
        if len(made) != 1 or made[0].on is None or made[0].on[0] != "random":
            return [("one vehicle at random", False)]
        v = made[0]
        _, lane_id, space = v.on
        return [("in the traffic", traffic == [v] and v.road is e.road),
                ("controlled exactly in the first part", controlled == ([v] if j == 0 else [])),
                ("kind", type(v) is (Car if j == 0 else Other)),
                ("placed as configured", And(v.speed == 25 and lane_id == first, eq(space, spacing)) if j == 0 else
                 And(v.speed is None and lane_id is None, eq(space * density, 1)))]
    if c.sym:
        c.loops["many"] = spec
        c.loops["range"] = spec
    e._reset()
    c.ensure("one road of as many lanes, of the default length", len(asked) == 1 and And(eq(asked[0][0], lanes), asked[0][1:] == (10000, 0)))
    c.ensure("on this network, with the environment's generator", e.road.network is net and e.road.np_random is e.np_random
             and e.road.record_history == e.config["show_trajectories"])
    if c.sym:
        c.ensure("all are made", len(loops) == 2 and all(s.over == 1 for s in loops))
        c.ensure("nothing before", phases[0] == ([], []))
    else:
        made = list(Car.log)
        c.ensure("as many as configured", len(made) == k + m and e.controlled_vehicles == made[:k] and e.road.vehicles == made)
        for i, v in enumerate(made):
            for label, b in check(0 if i < k else 1, [v], [v] if i < k else [], [v]):
                c.ensure(label, b)


@contract("C41.two-way", [TW + "._make_road", TW + "._make_vehicles", TW + "._reset"])
def two_way(c):
    """Any length: two lanes side by side and one that runs against the left one, over it; the ego drives in the right lane,
    with slower vehicles ahead in it, and oncoming ones in the lane against it, to which they keep."""
    length = c.pos("length", s=(500, 900))
    e = scene(c, "TwoWayEnv")
    if c.bool("by default"):
        length = 800
        e._reset()
    else:
        e._make_road(length)
        e._make_vehicles()
    net = e.road.network
    have = lanes_of(net)
    c.ensure("roads", set(have) == {("a", "b"), ("b", "a")} and len(have["a", "b"]) == 2 and len(have["b", "a"]) == 1)
    s, r = c.real("s", s=(0, 500)), c.real("r", s=(-5, 5))
    left, right = have["a", "b"]
    back = have["b", "a"][0]
    for l, (x, y) in ((left, (s, r)), (right, (s, 4 + r)), (back, (length - s, -r))):
        p = l.position(s, r)
        c.ensure("the lanes", And(eq(p[0], x), eq(p[1], y), eq(l.length, length), eq(l.width, 4)))
    vs = e.road.vehicles
    c.ensure("six vehicles, the first is the ego", len(vs) == 6 and vs[0] is e.vehicle and vs == Car.log and all(v.road is e.road for v in vs))
    c.ensure("the ego, in the right lane", on_line(c, vs[0], right, 30))
    c.ensure("30 m/s", vs[0].speed == 30)
    c.ensure("its kind", type(vs[0]) is Car and all(type(v) is Other for v in vs[1:]))
    draws = [x for what, x in e.np_random.log if what in ("randn", "normal")]
    for i, v in enumerate(vs[1:4]):
        c.ensure("in the right lane", And(eq(v.position[1], 4), eq(cos(v.heading), 1), eq(sin(v.heading), 0)))
        c.ensure("where stated", Or(*[eq(v.position[0], 70 + 40 * i + 10 * d) for d in draws]))
        c.ensure("as fast as stated", Or(*[eq(v.speed, 24 + 2 * d) for d in draws]))
    for i, v in enumerate(vs[4:]):
        c.ensure("oncoming in the lane against", And(eq(v.position[1], 0), eq(cos(v.heading), -1), eq(sin(v.heading), 0),
                                                   v.target_lane_index == ("b", "a", 0)))
        c.ensure("where stated", Or(*[eq(length - v.position[0], 200 + 100 * i + 10 * d) for d in draws]))
        c.ensure("as fast as stated", Or(*[eq(v.speed, 20 + 5 * d) for d in draws]))
    c.ensure("no lane changes", all(v.more.get("enable_lane_change") is False for v in vs[1:]))


def watch_lanes(c):
    from highway_env.road.road import RoadNetwork
    added = []
    real = RoadNetwork.add_lane

    def add_lane(self, _from, _to, lane):
        added.append((_from, _to, lane))
        real(self, _from, _to, lane)
    c.patch(RoadNetwork, "add_lane", add_lane)
    return added


def spot(l, x, y, down):
    """l is a spot of 8 m by 4 m from (x, y)"""
    p, q = l.position(0, 1), l.position(8, 1)
    side = 1 if down else -1
    return And(eq(l.length, 8), eq(l.width, 4), eq(p[0], x + side), eq(q[0], x + side), eq(p[1], y), eq(q[1], y - 8 if down else y + 8))


@contract("C41.parking-lot", [PA + "._create_road"])
def parking_lot(c):
    """Any number of spots: two rows of as many adjacent spots of 8 m by 4 m, facing each other 20 m apart."""
    n = c.int("spots", 1, s=(1, 20))
    e = scene(c, "ParkingEnv")
    added = watch_lanes(c)
    half = floor(n / 2) if c.sym else n // 2

    def check(k):
        if len(added) != 2:
            return [("two spots, one in each row", False)]
        rows = {(a, b): l for a, b, l in added}
        if set(rows) != {("a", "b"), ("b", "c")}:
            return [("two spots, one in each row", False)]
        x = 4 * (k - half) - 2
        return [("upper row", spot(rows["a", "b"], x, 10, False)), ("lower row", spot(rows["b", "c"], x, -10, True))]
    if c.sym:
        loop = c.loops["many"] = c.loops["range"] = each(c, lambda: added.clear(), check)
    if c.bool("by default"):
        n = half = None
        e._create_road()
        net, n, half = e.road.network, 15, 7
        c.ensure("fifteen spots", len(net.graph["a"]["b"]) == len(net.graph["b"]["c"]) == 15)
        for k in range(15):
            added[:] = [("a", "b", net.graph["a"]["b"][k]), ("b", "c", net.graph["b"]["c"][k])]
            for label, b in check(k):
                c.ensure(label, b)
        return
    e._create_road(n)
    if c.sym:
        c.ensure("as many as asked for", loop.over == 1)
    else:
        have = e.road.network.graph
        c.ensure("as many as asked for", len(have["a"]["b"]) == n and len(have["b"]["c"]) == n)
        for k in range(n):
            added[:] = [("a", "b", have["a"]["b"][k]), ("b", "c", have["b"]["c"][k])]
            for label, b in check(k):
                c.ensure(label, b)


@contract("C41.parking", [PA + "._create_vehicles"])
def parking(c):
    """Any number of controlled vehicles, any spots: the vehicles stand 20 m apart on the middle line, in any direction; the goal
    is the centre of a spot, in its direction."""
    k = c.int("controlled", 0, s=(0, 4))
    e = scene(c, "ParkingEnv", controlled_vehicles=k)
    spots = [straight(c, "p"), straight(c, "q"), straight(c, "r")]
    e.road = road(c, network(c, {("a", "b"): spots[:2], ("b", "c"): spots[2:]}), rng=e.np_random)
    before = ["a vehicle of the previous episode"]
    e.controlled_vehicles = list(before)
    first = []

    def start():
        if not first:
            first.append(list(e.controlled_vehicles))
        Car.log.clear()
        e.controlled_vehicles, e.road.vehicles = [], []
        e.np_random.log.clear()

    def check(i, made=None):
        made = list(Car.log) if made is None else made
        if len(made) != 1:
            return [("one vehicle", False)]
        v = made[0]
        ok = [("kind", type(v) is Car and v.road is e.road), ("where stated", And(eq(v.position[0], 20 * i), eq(v.position[1], 0))),
              ("standing", eq(v.speed, 0)), ("in some direction", within(v.heading, 0, 2 * c.np.pi))]
        if c.sym:
            ok += [("controlled, in the traffic", e.controlled_vehicles == [v] and e.road.vehicles == [v]),
                   ("any direction", Or(*[eq(v.heading, 2 * c.np.pi * u) for w, u in e.np_random.log if w in ("rand", "random_sample")]
                                        + [eq(v.heading, u) for w, u in e.np_random.log if w == "uniform"]))]
        return ok
    if c.sym:
        loop = c.loops["many"] = c.loops["range"] = each(c, start, check)
    e._create_vehicles()
    if c.sym:
        c.ensure("as many as configured", loop.over == 1)
        c.ensure("none of the previous episode", first == [[]])
    else:
        c.ensure("as many as configured, none of the previous episode", e.controlled_vehicles == Car.log == e.road.vehicles and len(Car.log) == k)
        for i, v in enumerate(list(Car.log)):
            for label, b in check(i, [v]):
                c.ensure(label, b)
    c.ensure("one goal", e.road.objects == [e.goal] and e.goal.road is e.road)
    from highway_env.road.objects import Landmark
    c.ensure("a landmark", type(e.goal) is Landmark)
    middles = []
    for l in spots:
        p = l.position(l.length / 2, 0)
        middles.append(And(eq(e.goal.position[0], p[0]), eq(e.goal.position[1], p[1]), eq(e.goal.heading, l.heading_at(0))))
    c.ensure("at the centre of a spot, in its direction", Or(*middles))


@contract("C41.summon-lot", [SU + "._create_road"], bounded=True, samples=30)
def summon_lot(c):
    """1, 2, 7 or 15 spots in a row: two rows of adjacent spots of 8 m by 4 m, 24 m apart, and between them five lanes of 4 m,
    side by side, that reach past the rows."""
    n = c.choice("spots", [1, 2, 7, 15])
    e = scene(c, "SummonEnv")
    e._create_road(n) if n != 15 else e._create_road()
    net = e.road.network
    have = lanes_of(net)
    c.ensure("roads", set(have) == {("a", "b"), ("b", "c"), ("d", "e")} and len(have["a", "b"]) == len(have["b", "c"]) == n and len(have["d", "e"]) == 5)
    for k in range(n):
        x = 4 * (k - n // 2) - 2
        c.ensure("upper row", spot(have["a", "b"][k], x, 12, False))
        c.ensure("lower row", spot(have["b", "c"][k], x, -12, True))
    reach = 4 * (n // 2 + 1)
    for k, l in enumerate(have["d", "e"]):
        p, q = l.position(0, 0), l.position(l.length, 0)
        c.ensure("aisle", And(eq(p[0], -reach), eq(q[0], reach), eq(p[1], -8 + 4 * k), eq(q[1], -8 + 4 * k), eq(l.width, 4)))
    c.ensure("slow", all(l.speed_limit == 5 for ls in have.values() for l in ls))
    c.ensure("what the traffic needs to know", And(e.spots == n, e.num_middle_lanes == 5, eq(e.x_range, reach)))
    p = have["a", "b"][-1].position(4, 0)
    c.ensure("the ego starts in the last spot", And(eq(e.vehicle_starting[0], p[0]), eq(e.vehicle_starting[1], p[1])))


@contract("C41.merge", [ME + "._make_road", ME + "._make_vehicles", ME + "._reset"])
def merge(c):
    """Two lanes joined from start to end; a ramp, forbidden all along, joined with the third lane of the merging section, which
    ends at an obstacle; the vehicles at the stated positions and speeds."""
    from highway_env.road.objects import Obstacle
    e = scene(c, "MergeEnv")
    e._reset()
    net = e.road.network
    have = lanes_of(net)
    c.ensure("roads", {k: len(v) for k, v in have.items()} == {("a", "b"): 2, ("b", "c"): 3, ("c", "d"): 2, ("j", "k"): 1, ("k", "b"): 1})
    joined(c, have, [(("a", "b", i), ("b", "c", i)) for i in (0, 1)] + [(("b", "c", i), ("c", "d", i)) for i in (0, 1)]
           + [(("j", "k", 0), ("k", "b", 0)), (("k", "b", 0), ("b", "c", 2))])
    s, r = c.real("s", s=(0, 500)), c.real("r", s=(-5, 5))
    start = {("a", "b"): 0, ("b", "c"): 230, ("c", "d"): 310}
    end = {("a", "b"): 230, ("b", "c"): 310, ("c", "d"): 460}
    for k, x in start.items():
        for i, l in enumerate(have[k]):
            p = l.position(s, r)
            c.ensure("lanes side by side along the highway", And(eq(p[0], x + s), eq(p[1], 4 * i + r), eq(l.length, end[k] - x)))
    p = have["j", "k"][0].position(s, r)
    c.ensure("ramp", And(eq(p[0], s), eq(p[1], 14.5 + r), eq(have["j", "k"][0].length, 150)))
    c.ensure("only the ramp is forbidden", all(l.forbidden == (k in [("j", "k"), ("k", "b")] or k == ("b", "c") and i == 2)
                                               for k, ls in have.items() for i, l in enumerate(ls)))
    c.ensure("width", And(*[eq(l.width, 4) for ls in have.values() for l in ls]))
    o = e.road.objects
    last = have["b", "c"][2]
    p = last.position(last.length, 0)
    c.ensure("the ramp ends at an obstacle", len(o) == 1 and type(o[0]) is Obstacle and eq(o[0].position, p))
    vs = e.road.vehicles
    c.ensure("five vehicles, the first is the ego", len(vs) == 5 and vs[0] is e.vehicle and set(vs) == set(Car.log) and all(v.road is e.road for v in vs))
    c.ensure("kinds", type(vs[0]) is Car and all(type(v) is Other for v in vs[1:]))
    for v, (k, at, speed) in zip(vs, [(("a", "b", 1), 30, 30), (("a", "b", 0), 90, 29), (("a", "b", 1), 70, 31), (("a", "b", 0), 5, 31.5),
                                      (("j", "k", 0), 110, 20)]):
        c.ensure("where and as fast as stated", And(on_line(c, v, have[k[:2]][k[2]], at), eq(v.speed, speed)))
    c.ensure("the merging vehicle speeds up", vs[4].target_speed == 30)


@contract("C41.roundabout-road", [RO + "._make_road"], samples=40)
def roundabout_road(c):
    """Two concentric closed rings, joined section by section; straight access roads joined with their curves; the same from the
    four sides."""
    e = scene(c, "RoundaboutEnv")
    e._make_road()
    net = e.road.network
    have = lanes_of(net)
    ring = ["se", "ex", "ee", "nx", "ne", "wx", "we", "sx"]
    sections = [(a, b) for a, b in zip(ring, ring[1:] + ring[:1])]
    access = [("%ser" % d, "%ses" % d) for d in "senw"] + [("%ses" % d, "%se" % d) for d in "senw"]
    away = [("%sx" % d, "%sxs" % d) for d in "senw"] + [("%sxs" % d, "%sxr" % d) for d in "senw"]
    c.ensure("roads", {k: len(v) for k, v in have.items()} == {**{k: 2 for k in sections}, **{k: 1 for k in access + away}})
    joined(c, have, [(a + (i,), b + (i,)) for a, b in zip(sections, sections[1:] + sections[:1]) for i in (0, 1)]
           + [(("%ser" % d, "%ses" % d, 0), ("%ses" % d, "%se" % d, 0)) for d in "senw"]
           + [(("%sx" % d, "%sxs" % d, 0), ("%sxs" % d, "%sxr" % d, 0)) for d in "senw"])
    s, r = c.real("s", s=(0, 15)), c.real("r", s=(-2, 2))
    for k in sections:
        for i, radius in ((0, 20), (1, 24)):
            l = have[k][i]
            p = l.position(s, r)
            c.ensure("around the centre", eq(p[0] * p[0] + p[1] * p[1], (radius + r) * (radius + r)))
            c.ensure("a quarter by two sections", eq(l.length, radius * c.np.pi * (42 if k[0][1] == "e" else 48) / 180))
    # a quarter turn takes the east side to the south side, and so on
    turn = dict(zip("nesw", "eswn"))
    for (a, b), ls in have.items():
        for i, l in enumerate(ls):
            m = have[turn[a[0]] + a[1:], turn[b[0]] + b[1:]][i]
            p, q = l.position(s, r), m.position(s, r)
            c.ensure("the same from the four sides", And(eq(q[0], -p[1]), eq(q[1], p[0]), eq(m.length, l.length), eq(m.width, l.width)))
    for a, b, start, end in (("ser", "ses", (2, 170), (2, 42.5)), ("sxs", "sxr", (-2, 42.5), (-2, 170))):
        l = have[a, b][0]
        p, q = l.position(0, 0), l.position(l.length, 0)
        c.ensure("access roads", And(eq(p[0], start[0]), eq(p[1], start[1]), eq(q[0], end[0]), eq(q[1], end[1])))
    for a, b, at in (("ses", "se", "end"), ("sx", "sxs", "start")):
        l = have[a, b][0]
        p = l.position(l.length if at == "end" else 0, 0)
        o = have["se", "ex"][1].position(0, 0) if at == "end" else have["sx", "se"][1].position(0, 0)
        c.ensure("curves lead to the rings", le(norm2([p[0] - o[0], p[1] - o[1]]), 8))


@contract("C41.roundabout", [RO + "._make_vehicles"], samples=60)
def roundabout(c):
    """The ego on the southern access road, bound for the northern exit; vehicles around the stated positions and speeds, each
    bound for an exit (the configured one for the first, if any), each behaving at random."""
    first = c.choice("destination", [None, 0, 1, 2])
    e = scene(c, "RoundaboutEnv", incoming_vehicle_destination=first)
    able = c.bool("plans")
    kind = Car if able else type("Bare", (), {"__init__": Car.__init__})
    e.action_type.vehicle_class = kind
    access, other = straight(c, "access"), straight(c, "other")
    e.road = road(c, network(c, {("ser", "ses"): [access], ("we", "sx"): [other, other], ("eer", "ees"): [other]}), rng=e.np_random)
    e._make_vehicles()
    vs = e.road.vehicles
    c.ensure("five vehicles", len(vs) == 5 and type(vs[0]) is kind and all(type(v) is Other and v.road is e.road for v in vs[1:]))
    c.ensure("the first is the ego", vs[0] is e.vehicle)
    c.ensure("on the access road", And(on_line(c, vs[0], access, 125), eq(vs[0].speed, 8)))
    c.ensure("bound for the north", vs[0].to == (["nxs"] if able else []))
    draws = [x for what, x in e.np_random.log if what in ("randn", "normal")]
    for v, (lane, at) in zip(vs[1:], [(("we", "sx", 1), 5), (("we", "sx", 0), 20), (("we", "sx", 0), -20), (("eer", "ees", 0), 50)]):
        c.ensure("on its lane", v.on[0] == lane)
        c.ensure("where stated", Or(*[eq(v.on[1], at + 2 * d) for d in draws]))
        c.ensure("as fast as stated", Or(*[eq(v.speed, 16 + 2 * d) for d in draws]))
        c.ensure("bound for an exit", len(v.to) == 1 and v.to[0] in ("exr", "sxr", "nxr"))
        c.ensure("behaving at random", v.random == 1)
    if first is not None:
        c.ensure("the configured exit", vs[1].to == [["exr", "sxr", "nxr"][first]])


@contract("C41.lane-keeping", [LK + "._make_road", LK + "._make_vehicles", LK + "._reset"])
def lane_keeping(c):
    """A straight lane to keep first, a winding one after; the ego on the first, 4 m left of its centre line, along it."""
    e = scene(c, "LaneKeepingEnv")
    e.lane, e.lanes = "an old lane", ["old lanes"]
    e._reset()
    net = e.road.network
    have = lanes_of(net)
    c.ensure("roads", {k: len(v) for k, v in have.items()} == {("a", "b"): 1, ("c", "d"): 1, ("d", "a"): 1})
    c.ensure("the lanes to keep", e.lane is have["c", "d"][0] and e.lanes == [have["a", "b"][0]])
    joined(c, have, [(("c", "d", 0), ("d", "a", 0))])
    s, r = c.real("s", s=(0, 500)), c.real("r", s=(-5, 5))
    w = have["a", "b"][0]
    p = w.position(s, r)
    c.ensure("winding", And(eq(p[0], s), eq(p[1], r + 5 * sin(2 * c.np.pi / 100 * s)), eq(w.length, 500)))
    l = e.lane
    p, q = l.position(0, 0), l.position(l.length, 0)
    c.ensure("straight", And(eq(p[0], 50), eq(p[1], 50), eq(q[0], 115), eq(q[1], 15)))
    c.ensure("width", And(*[eq(x.width, 10) for ls in have.values() for x in ls]))
    vs = e.road.vehicles
    c.ensure("one vehicle, the ego", len(vs) == 1 and vs[0] is e.vehicle and type(vs[0]) is Car and vs[0].road is e.road)
    p = l.position(50, -4)
    c.ensure("where and as fast as stated", And(eq(vs[0].position[0], p[0]), eq(vs[0].position[1], p[1]), eq(vs[0].heading, l.heading_at(50)), eq(vs[0].speed, 8.3)))
