from contracts._common import *
from contracts.c14 import ManyLanes, same_index

CP = BEH + "IDMVehicle.change_lane_policy"
MOB = BEH + "IDMVehicle.mobil"


def lanes_net(c, n, tag=""):
    """One road (a, b) of n lanes."""
    if not c.sym:
        return network(c, {("a", "b"): [straight(c, "s%d" % i) for i in range(n)], ("b", "d"): [straight(c, "t")]})
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    net.graph = {"a": {"b": ManyLanes(n)}, "b": {"d": ManyLanes(1)}}

    class L:
        def __init__(self, index):
            self.index = index

        def is_reachable_from(self, position):
            return lt(0, T.uf("reach", T.lift(self.index[2])))
    net.get_lane = lambda index: L(index)
    return net


@contract("C17.policy", [CP, ROAD + "RoadNetwork.side_lanes", UTIL + "do_every"], max_paths=3000)
def policy(c):
    """Without a change in progress: a new target is adjacent, on the same road, reachable and recommended, at least the delay
    after the last decision; then the timer restarts; otherwise nothing changes."""
    n = c.int("lanes", 1, s=(1, 5))
    k = c.int("id", 0, s=(0, 4))
    c.require(lt(k, n))
    v = bare(c, c.choice("class", ["IDMVehicle", "LinearVehicle"]))
    v.lane_index = ("a", "b", k)
    v.target_lane_index = ("a", "b", k)
    v.timer = c.real("timer", 0, s=(0, 2))
    v.LANE_CHANGE_DELAY = c.pos("delay", s=(.3, 2))
    net = lanes_net(c, n)
    v.road = road(c, net)
    v.road.vehicles = [v]
    asked = []

    def mobil(index):
        yes = c.bool("recommended")
        asked.append((index, yes))
        return yes
    v.mobil = mobil
    t0 = v.timer
    v.change_lane_policy()
    t1 = v.target_lane_index
    yes = [i for i, y in asked if y]
    c.ensure("asked only about adjacent, existing, reachable lanes", And(*[
        And(i[0] == "a", i[1] == "b", Or(eq(i[2], k - 1), eq(i[2], k + 1)), le(0, i[2]), lt(i[2], n),
            net.get_lane(i).is_reachable_from(v.position)) for i, _ in asked], True))
    if yes:
        c.ensure("takes a recommended lane", Or(*[same_index(t1, i) for i in yes]))
        c.ensure("not before the delay", le(v.LANE_CHANGE_DELAY, t0))
        c.ensure("timer restarts", eq(v.timer, 0))
    else:
        c.ensure("otherwise keeps its lane", same_index(t1, ("a", "b", k)))
        c.ensure("timer restarts only with a decision", Or(eq(v.timer, t0), And(eq(v.timer, 0), le(v.LANE_CHANGE_DELAY, t0))))
        if c.fork(lt(v.LANE_CHANGE_DELAY, t0)):
            for d in (-1, 1):
                i = ("a", "b", k + d)
                if c.fork(And(le(0, k + d), lt(k + d, n))) and c.fork(net.get_lane(i if c.sym else ("a", "b", int(k + d))).is_reachable_from(v.position)):
                    c.ensure("every candidate is considered", Or(*[same_index(i, j) for j, _ in asked], False))


@contract("C17.mobil", [MOB], max_paths=4000)
def mobil(c):
    """A change is recommended exactly when it is safe for the new follower and either advantageous, or (with a lane preference)
    towards the preferred lane and safe for the vehicle itself."""
    v = bare(c, "IDMVehicle", "me", heading=0, speed=0)
    v.POLITENESS = c.real("politeness", 0, s=(0, 1))
    v.LANE_CHANGE_MIN_ACC_GAIN = c.real("min_gain", s=(-1, 1))
    v.LANE_CHANGE_MAX_BRAKING_IMPOSED = c.real("max_braking", s=(0, 4))
    k, d = c.smallint("id", 0, 2), c.choice("to", [-1, 1])
    v.lane_index = v.target_lane_index = ("a", "b", k)
    index = ("a", "b", k + d)
    mk = lambda t: bare(c, "Vehicle", t, heading=0, speed=0) if c.bool("some" + t) else None
    np_, nf, op, of = mk("new_preceding"), mk("new_following"), mk("old_preceding"), mk("old_following")
    v.road = road(c, None)

    def neighbours(veh, lane_index=None):
        if veh is not v:
            c.unreachable("neighbours of the vehicle itself")
        return (np_, nf) if lane_index == index else (op, of) if lane_index in (None, v.lane_index) else 1 / 0
    v.road.neighbour_vehicles = neighbours
    memo = {}

    def acc(ego_vehicle, front_vehicle=None, rear_vehicle=None):
        if ego_vehicle is None:
            return 0
        key = (id(ego_vehicle), id(front_vehicle))
        if key not in memo:
            names = {id(v): "me", id(np_): "np", id(nf): "nf", id(op): "op", id(of): "of", id(None): "none"}
            memo[key] = c.real("acc_%s_%s" % (names[key[0]], names[key[1]]), s=(-6, 4))
        return memo[key]
    v.acceleration = acc
    c.note("mobil is proved over the contracts of neighbour_vehicles (C07) and acceleration (C16)")
    pref = c.choice("plan", ["none", "no lane", 0, 1, 2])
    more = [] if c.choice("then", [True, False]) else [("b", "d", c.int("later", 0, s=(0, 3)) if pref == "no lane" else None)]
    v.route = None if pref == "none" else [("a", "b", None if pref == "no lane" else pref)] + more
    before = snap(v)
    got = v.mobil(index)
    safe = le(-v.LANE_CHANGE_MAX_BRAKING_IMPOSED, acc(nf, v))
    if pref in ("none", "no lane"):
        gain = acc(v, np_) - acc(v, op) + v.POLITENESS * (acc(nf, v) - acc(nf, np_) + acc(of, op) - acc(of, v))
        want = And(safe, le(v.LANE_CHANGE_MIN_ACC_GAIN, gain))
    else:
        towards = (pref > k) - (pref < k) == d
        want = And(safe, towards, le(-v.LANE_CHANGE_MAX_BRAKING_IMPOSED, acc(v, np_)))
    c.ensure("recommended exactly when safe and useful", Iff(got if isinstance(got, B) else bool(got), want))
    c.ensure("only an answer: the vehicle is unchanged", unchanged(v, before))


def _other(c, tag):
    k = c.choice("kind" + tag, ["ControlledVehicle", "Vehicle"])
    x = bare(c, k, tag, heading=0, speed=0)
    x.lane_index = ("a", "b", c.choice("lane" + tag, [0, 1]))
    if k != "Vehicle":
        x.target_lane_index = ("a", "b", c.choice("heads for" + tag, [0, 1]))
    return x


@contract("C17.abort", [CP, VEH + "Vehicle.lane_distance_to"], seqs=True, bound=2, max_paths=3000, seconds=60)
def abort(c):
    """A change in progress is aborted, back to the current lane, exactly when some vehicle on another lane heads for the same
    lane and is ahead within the desired gap; any number of vehicles.  No new decision is taken meanwhile."""
    from highway_env.vehicle.controller import ControlledVehicle
    lane = abstract_lane(c)
    v = bare(c, "IDMVehicle", "me", heading=0, speed=0)
    v.lane_index, v.lane = ("a", "b", 0), lane
    target = v.target_lane_index = c.choice("target", [("a", "b", 1), ("b", "d", 0)])
    v.timer = c.real("timer", 0, s=(0, 2))
    gaps = {}

    def gap(ego, front=None, projected=True):
        if id(front) not in gaps:
            gaps[id(front)] = (front, c.real("desired_gap", s=(0, 30)))
        return gaps[id(front)][1]
    v.desired_gap = gap
    v.mobil = lambda index: c.unreachable("no new decision during a change")

    def conflict(x):
        if x is v or not isinstance(x, ControlledVehicle) or target[:2] != ("a", "b"):
            return False
        d = lane.local_coordinates(x.position)[0] - lane.local_coordinates(v.position)[0]
        return And(x.lane_index != target, x.target_lane_index == target, lt(0, d), lt(d, gap(v, x)))

    def inv(cc, seq, st, seen):
        return [("no conflict so far", And(*[Not(conflict(w)) for w, b in zip(seq.w, seen) if b and w is not v], v.target_lane_index == target))]
    vs = c.seq("vehicles", _other, LoopSpec((), None, inv, frame=(v,)), bound=2)
    if isinstance(vs, list):
        vs.insert(c.choice("place of the vehicle itself", list(range(len(vs) + 1))), v)
    else:
        vs.w.insert(0, v)
    v.road = road(c, network(c, {("a", "b"): [lane, lane], ("b", "d"): [lane]}), vs)
    t0 = v.timer
    v.change_lane_policy()
    c.ensure("timer untouched", eq(v.timer, t0))
    if v.target_lane_index == target:
        for w in c.elements(vs):
            if w is not v:
                c.ensure("kept only without conflict", Not(conflict(w)))
    else:
        c.ensure("back to its current lane", v.target_lane_index == v.lane_index)
        whom = [c.e.active[-1].elem] if c.sym and c.unbounded else list(c.elements(vs))
        c.ensure("aborted only for a conflict", Or(*[conflict(w) for w in whom], False))


@contract("C17.constants", [BEH + "IDMVehicle"])
def constants(c):
    """The lane-change parameters: 1 s between decisions, at most 2 m/s2 imposed braking, at least 0.2 m/s2 gain, no politeness."""
    from highway_env.vehicle.behavior import IDMVehicle as V
    c.ensure("parameters", (V.LANE_CHANGE_DELAY, V.LANE_CHANGE_MAX_BRAKING_IMPOSED, V.LANE_CHANGE_MIN_ACC_GAIN, V.POLITENESS)
             == (1.0, 2.0, 0.2, 0.0))
