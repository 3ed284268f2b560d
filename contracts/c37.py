from contracts._common import *
from contracts.c27 import env_of, IS

SU = ENVS + "summon_env:SummonEnv"
TYPES = ["highway_env.vehicle.behavior.IDMVehicle", "highway_env.vehicle.behavior.LinearVehicle",
         "highway_env.vehicle.behavior.AggressiveVehicle"]


def intersection(c, **config):
    """The environment; the lane of the network asked for (any lane at all in the proof)."""
    import highway_env.vehicle.behavior as b
    e = env_of(c, "IntersectionEnv", None, **config)
    e.controlled_vehicles = []
    asked = []
    shared = {k: {a: v for a, v in vars(k).items() if a.isupper()} for k in (b.IDMVehicle, b.LinearVehicle, b.AggressiveVehicle, b.DefensiveVehicle)}

    def restore():
        for k, attrs in shared.items():
            for a in [a for a in vars(k) if a.isupper()]:
                if a in attrs:
                    setattr(k, a, attrs[a])
                else:
                    delattr(k, a)
    c.undo.append(restore)
    if c.sym:
        lane = abstract_lane(c)
        lane.speed_limit = 10
        net = AnyNetwork(c, ("ir0", "il1", 0), lane)
        net.get_lane = lambda index: (asked.append(index), lane)[1]
        e.road = road(c, net, rng=e.np_random)
    else:
        e._make_road()
        net = e.road.network
        real = net.get_lane
        net.get_lane = lambda index: (asked.append(index), real(index))[1]
        lane = None
    return e, lane, asked


def watch(c, cls, made, planned):
    """Records what is made on a lane and the destinations planned (planning itself: C05)."""
    from highway_env.vehicle.controller import ControlledVehicle
    real = cls.make_on_lane

    def make_on_lane(road, lane_index, longitudinal, speed=None):
        v = real(road, lane_index, longitudinal, speed)
        made.append((v, lane_index, longitudinal, speed))
        return v
    c.patch(cls, "make_on_lane", staticmethod(make_on_lane))
    if c.sym:
        def plan(self, destination):
            planned.append((self, destination))
            self.route = []
            return self
    else:
        go = ControlledVehicle.plan_route_to

        def plan(self, destination):
            planned.append((self, destination))
            return go(self, destination)
    c.patch(ControlledVehicle, "plan_route_to", plan)


@contract("C37.spawn", [IS + "._spawn_vehicle", VEH + "Vehicle.make_on_lane", BEH + "IDMVehicle.__init__"])
def spawn(c):
    """Any number of vehicles present: with the given probability, one vehicle is added at the end, on the centre line of an entry
    lane around the requested position, bound for another exit (the opposite one if asked), at least 15 m from each vehicle present;
    if one is closer, nothing is added."""
    from highway_env import utils
    e, lane, asked = intersection(c, other_vehicles_type=c.choice("type", TYPES))
    cls = utils.class_from_path(e.config["other_vehicles_type"])
    # the probability, random or certain; where it is certain the draw does not matter
    p = c.real("probability", 0, 1, s=(0, 1)) if c.bool("random") else 1
    go = c.bool("straight on")
    s, dp, ds = c.real("s", s=(-5, 80)), c.real("position deviation", 0, s=(0, 2)), c.real("speed deviation", 0, s=(0, 2))
    made, planned, added = [], [], []
    watch(c, cls, made, planned)
    make = lambda k, tag: bare(c, "Vehicle", tag, pos=c.arr([per(c, "x", k, s=(-40, 40)), per(c, "y", k, s=(-40, 40))]), road=e.road)
    vs, n = many(c, "present", make)
    i = c.int("any", 0)
    far = lambda k: le(15, norm2((vs.at(k) if c.sym else vs[k]).position - made[0][0].position))
    if c.sym:
        c.at(i)
        vs.append = added.append
        last = []

        def inv(cc, seq, st, seen):
            last[:] = [seq]
            return [("those seen are far", Implies(And(le(0, i), lt(i, seq.k), lt(i, n)), far(i)))] if made else []
        c.loops["many"] = LoopSpec((), lambda cc, seq, seen: {}, inv)
    else:
        for v in vs:        # near the entries
            v.position = v.position + c.choice("entry", [[0, 0], [2, 60], [-60, 2], [60, -2], [-2, -60]])
    e.road.vehicles = vs
    before = list(vs) if not c.sym else None
    got = e._spawn_vehicle(s, dp, ds, spawn_probability=p, go_straight=go)
    draws = [x for k, x in e.np_random.log if k in ("rand", "random_sample", "uniform") and not getattr(x, "shape", ())]
    if not c.sym:
        c.ensure("the vehicles present stay, in order", len(vs) >= n and all(a is b for a, b in zip(vs, before)))
        added = list(vs[n:])
    c.ensure("at most one", len(added) <= 1)
    if added:
        v, index, at, speed = made[0]
        c.ensure("it is the one made", added[0] is v and len(made) == 1 and v.road is e.road)
        c.ensure("returned", got is v)
        c.ensure("with the given probability", Or(*[le(u, p) for u in draws]) if draws else le(1, p))
        start = [k for k in range(4) if index == ("o%d" % k, "ir%d" % k, 0)]
        c.ensure("on an entry lane", len(start) == 1 and asked and asked[0] == index)
        gauss = [x for k, x in e.np_random.log if k in ("randn", "normal")]
        c.ensure("around the requested position", Or(*[eq(at, s + 5 + g * dp) for g in gauss]))
        c.ensure("around 8 m/s", Or(*[eq(v.speed, 8 + g * ds) for g in gauss]))
        if c.sym:
            c.ensure("on the centre line", eq(list(v.position), list(lane.position(at, 0))))
        ends = [d for w, d in planned if w is v]
        c.ensure("bound for another exit", len(ends) == 1 and ends[0] in ["o%d" % k for k in range(4)] and ends[0] != index[0])
        if go:
            c.ensure("straight on", ends[0] == "o%d" % ((start[0] + 2) % 4))
        if c.sym:
            c.ensure("clear of the vehicles present", Implies(lt(i, n), far(i)))
        else:
            c.ensure("clear of the vehicles present", all(float(norm2(w.position - v.position)) >= 15 - 1e-9 for w in before))
    else:
        c.ensure("nothing returned", got is None)
        no = Or(*[lt(p, u) for u in draws]) if draws else False
        if c.sym:
            ks = [seq.k for seq in last] + list(c.positions)
            near = Or(*[And(le(0, k), lt(k, n), Not(far(k))) for k in ks]) if made else False
        else:
            near = bool(made) and any(float(norm2(w.position - made[0][0].position)) < 15 + 1e-9 for w in before)
        c.ensure("only by chance or because a vehicle is close", Or(no, near))


def candidate(c, e, tag):
    """A vehicle anywhere: its road, the lane it is on, whether it has a route, whether it is controlled."""
    v = bare(c, "IDMVehicle", tag)
    v.route = None if c.bool("no route" + tag) else [("a", "b", 0)]
    v.lane_index = c.choice("on" + tag, [("il2", "o2", 0), ("o1", "ir1", 0), ("ir0", "il2", 0)])
    v.lane = abstract_lane(c, "lane" + tag)
    if not c.sym:       # often near the end of its lane
        v.position = np_array(v.lane.position(v.lane.length - c.real("left" + tag, s=(0, 40)), 0))
    sized(c, v, tag)
    v.road = e.road
    v.mine = c.bool("controlled" + tag)
    return v


def np_array(x):
    import numpy as np
    return np.array(x, dtype=float)


class Those:
    """The controlled vehicles: a vehicle is among them or not."""

    def __contains__(self, v):
        return v.mine

    def __iter__(self):
        raise Unsupported("listing the controlled vehicles")
    __len__ = __getitem__ = __iter__


def leaving(v):
    return False if v.lane_index[0] == "o1" else And("il" in v.lane_index[0], "o" in v.lane_index[1],
               le(v.lane.length - 4 * v.LENGTH, v.lane.local_coordinates(v.position)[0]))


@contract("C37.clear", [IS + "._clear_vehicles"])
def clear(c):
    """Any number of vehicles: removed are exactly those that are not controlled and are within four lengths of the end of an exit
    lane (or past it) or have no route; the others stay, in order."""
    e, lane, _ = intersection(c)
    removed = lambda v: And(not v.mine, Or(leaving(v), v.route is None))
    if c.sym:
        v = candidate(c, e, "v")
        w = bare(c, "IDMVehicle", "w")
        w.lane_index, w.route, w.mine = ("o1", "ir1", 0), [], c.bool("controlled w")
        e.controlled_vehicles = Those()
        e.road.vehicles = SymSeq("vehicles", [v, w] if c.bool("two") else [v], lambda cc: bare(c, "IDMVehicle", "u"))
        ws = list(e.road.vehicles.w)
    else:
        ws = [candidate(c, e, str(k)) for k in range(c.choice("vehicles", [0, 1, 2, 3, 5]))]
        e.controlled_vehicles = [v for v in ws if v.mine]
        e.road.vehicles = list(ws)
    before = [snap(v) for v in ws]
    gone = [c.fork(removed(v)) for v in ws]
    got = e._clear_vehicles()
    left = list(e.road.vehicles.w if c.sym else e.road.vehicles)
    want = [v for v, g in zip(ws, gone) if not g]
    c.ensure("exactly those leaving or without a route", len(left) == len(want) and {id(v) for v in left} == {id(v) for v in want})
    c.ensure("the others in order", all(a is b for a, b in zip(left, want)))
    for v, b in zip(ws, before):
        c.ensure("no vehicle is changed", unchanged(v, b))


@contract("C37.populate", [IS + "._make_vehicles"])
def populate(c):
    """Any traffic, one to four controlled vehicles: each is on the entry lane of its number, routed to the configured destination,
    controlled in that order; exactly the other vehicles within 20 m of one of them are removed."""
    e, lane, asked = intersection(c)
    e.config["controlled_vehicles"] = k = c.choice("controlled", [1, 2, 3, 4] if c.sym else [1, 2, 3, 5, 6])
    e.config["initial_vehicle_count"] = c.choice("count", [1, 3] if c.sym else [1, 5, 15])
    e.config["destination"] = destination = c.choice("destination", ["o1", None])
    from highway_env.vehicle.controller import MDPVehicle
    made, planned = [], []
    watch(c, MDPVehicle, made, planned)

    class ActionType:
        vehicle_class = MDPVehicle
    e.action_type = ActionType()
    seen, spawned = [], []
    if c.sym:
        w = bare(c, "IDMVehicle", "w", road=e.road)
        e.road.vehicles = SymSeq("vehicles", [w], lambda cc: bare(c, "IDMVehicle", "u", road=e.road))
        e._spawn_vehicle = lambda longitudinal=0, position_deviation=1., speed_deviation=1., spawn_probability=.6, go_straight=False: \
            spawned.append((longitudinal, spawn_probability, go_straight))
        e.road.act = lambda *a, **k: None
        e.road.step = lambda *a, **k: None
        ws = [w]
    else:
        # the traffic before any controlled vehicle is placed
        real = MDPVehicle.__init__

        def init(self, *a, **k):
            if not seen:
                seen.append(list(e.road.vehicles))
            real(self, *a, **k)
        c.patch(MDPVehicle, "__init__", init)
        e.config["simulation_frequency"] = 5
        spawn = type(e)._spawn_vehicle

        def spy(longitudinal=0, position_deviation=1., speed_deviation=1., spawn_probability=.6, go_straight=False):
            spawned.append((longitudinal, spawn_probability, go_straight))
            return spawn(e, longitudinal, position_deviation, speed_deviation, spawn_probability, go_straight)
        e._spawn_vehicle = spy
    e._make_vehicles(e.config["initial_vehicle_count"])
    if not c.sym:
        ws = seen[0]
    n = e.config["initial_vehicle_count"]
    c.ensure("as many attempts as vehicles configured, the last one certain and going straight",
             len(spawned) == n and spawned[-1][1] == 1 and bool(spawned[-1][2]) and all(p < 1 and not go for _, p, go in spawned[:-1]))
    c.ensure("spread over 80 m, the last one at 60 m", And(eq(spawned[-1][0], 60), *[eq(s, 80 * j / (n - 1)) for j, (s, _, _) in enumerate(spawned[:-1])]))
    left = list(e.road.vehicles.w if c.sym else e.road.vehicles)
    egos = e.controlled_vehicles
    c.ensure("as many controlled vehicles as configured", len(egos) == k)
    if not c.sym:
        for v in egos:      # on the road it was put on
            index = ("o%d" % (egos.index(v) % 4), "ir%d" % (egos.index(v) % 4), 0)
            lane = e.road.network.get_lane(index)
            c.ensure("on its entry lane", lane.on_lane(v.position))
            c.ensure("at the lane's speed limit", eq(v.speed, lane.speed_limit))
    else:
        c.ensure("on the entry lane of its number", [x for x in asked if x[0] != "ir0"] == [("o%d" % j, "ir%d" % j, 0) for j in range(k)])
        for v in egos:
            c.ensure("at the lane's speed limit", eq(v.speed, lane.speed_limit))
    for v in egos:
        c.ensure("in the traffic, once", sum(x is v for x in left) == 1 and v.road is e.road)
        ends = [d for x, d in planned if x is v]
        c.ensure("routed", ends == [destination] if destination else len(ends) == 1 and ends[0] in ("o1", "o2", "o3"))
    c.ensure("in order", [x for x in left if x in egos] == list(egos))
    for w in ws:
        near = Or(*[lt(norm2(w.position - v.position), 20) for v in egos])
        c.ensure("exactly those close to a controlled vehicle are removed", Iff(any(x is w for x in left), Not(near)))
    c.ensure("no one else", all(any(x is y for y in egos + ws) for x in left))


@contract("C37.summon", [SU + "._create_vehicles"])
def summon(c):
    """Any number of vehicles: the others within 20 m of the ego are removed, all of them; the ego stays."""
    import highway_env.envs as E
    from highway_env.vehicle.kinematics import Vehicle
    e = env_of(c, "SummonEnv", None)
    e.controlled_vehicles = [None]

    class ActionType:
        vehicle_class = Vehicle
    e.action_type = ActionType()
    e._create_road(spots=c.choice("spots", [3, 15]))
    e.config["vehicles_count"] = c.choice("count", [0]) if c.sym else c.int("count", 0, s=(0, 3 if e.spots == 3 else 14))
    before = []
    if c.sym:
        from highway_env.road.road import RoadNetwork
        w = bare(c, "IDMVehicle", "w", road=e.road)
        e.road.vehicles = SymSeq("vehicles", [w], lambda cc: bare(c, "IDMVehicle", "u", road=e.road))
        c.patch(RoadNetwork, "get_closest_lane_index", lambda self, position, heading=None: ("a", "b", 0))
        ws = [w]
    else:
        class Log(list):
            def append(self, v):
                before.append(v)
                list.append(self, v)
        e.road.vehicles = Log()
    e._create_vehicles(parked_probability=c.real("parked", 0, 1, s=(0, 1)))
    left = list(e.road.vehicles.w if c.sym else e.road.vehicles)
    ego = e.vehicle
    if not c.sym:
        ws = [v for v in before if v is not ego]
    c.ensure("the ego stays", sum(x is ego for x in left) == 1)
    for w in ws:
        c.ensure("exactly those close to the ego are removed", Iff(any(x is w for x in left), le(20, norm2(w.position - ego.position))))


@contract("C37.road", [IS + "._make_road"], samples=1)
def built(c):
    """Entry, crossing and exit lanes join up (position and heading), each from the right edge nodes, with the documented priorities."""
    import numpy as np
    e = env_of(c, "IntersectionEnv", None)
    e._make_road()
    net = e.road.network
    from highway_env.road.regulation import RegulatedRoad
    c.ensure("regulated, with the environment's generator", isinstance(e.road, RegulatedRoad) and e.road.np_random is e.np_random)
    want = {}
    for k in range(4):
        high = k % 2
        want["o%d" % k, "ir%d" % k] = 3 if high else 1
        want["ir%d" % k, "il%d" % ((k + 2) % 4)] = 3 if high else 1
        want["ir%d" % k, "il%d" % ((k - 1) % 4)] = 3 if high else 1
        want["ir%d" % k, "il%d" % ((k + 1) % 4)] = 2 if high else 0
        want["il%d" % k, "o%d" % k] = None
    have = {(a, b): ls for a in net.graph for b, ls in net.graph[a].items()}
    c.ensure("exactly these roads, one lane each", set(have) == set(want) and all(len(x) == 1 for x in have.values()))
    for (a, b), p in want.items():
        l = have[a, b][0]
        if p is not None:
            c.ensure("priority", l.priority == p)
        c.ensure("speed limit", l.speed_limit == 10)
        for (a2, b2), ls in have.items():
            if a2 == b and b[0] == "i":
                n = ls[0]
                c.ensure("ends where the next begins", eq(list(l.position(l.length, 0)), list(n.position(0, 0))))
                d = l.heading_at(l.length) - n.heading_at(0)
                c.ensure("in the same direction", And(eq(cos(d), 1), eq(sin(d), 0)))
    for k in range(4):
        i, o = have["o%d" % k, "ir%d" % k][0], have["il%d" % k, "o%d" % k][0]
        across = list(o.position(o.length, 0) - i.position(0, 0))
        c.ensure("leaving on the other side of the road entered", eq(across[0] * across[0] + across[1] * across[1], 16))
        s, r = i.local_coordinates(o.position(o.length, 0))
        c.ensure("the exit is on the left of the entry", And(eq(r, -4), eq(s, 0)))
        t = have["ir%d" % k, "il%d" % ((k + 2) % 4)][0]
        c.ensure("straight on", eq(t.heading_at(0), i.heading_at(0)))
        for turn, side in ((-1, 1), (1, -1)):
            t = have["ir%d" % k, "il%d" % ((k + turn) % 4)][0]
            end = t.position(t.length, 0)
            rr = i.local_coordinates(end)[1]
            c.ensure("right and left turns", lt(0, side * rr))
