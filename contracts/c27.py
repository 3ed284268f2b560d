from contracts._common import *
from contracts.c14 import ManyLanes

HW = ENVS + "highway_env:HighwayEnv"
RA = ENVS + "roundabout_env:RoundaboutEnv"
IS = ENVS + "intersection_env:IntersectionEnv"
TW = ENVS + "two_way_env:TwoWayEnv"
MG = ENVS + "merge_env:MergeEnv"
LK = ENVS + "lane_keeping_env:LaneKeepingEnv"
LMAP = UTIL + "lmap"


def env_of(c, cls, ego, **config):
    import highway_env.envs as E
    e = bare_env(c, getattr(E, cls), **config)
    e.controlled_vehicles = [ego]
    return e


def lanes_of(c, n):
    """A network whose road (a, b) has n lanes."""
    from highway_env.road.road import RoadNetwork
    if c.sym:
        net = RoadNetwork()
        net.graph = {"a": {"b": ManyLanes(n)}}
        return net
    return network(c, {("a", "b"): [straight(c, "s%d" % i) for i in range(n)]})


def mapped(x, lo, hi):
    return (x - lo) / (hi - lo)


@contract("C27.highway", [HW + "._reward", LMAP, ROAD + "RoadNetwork.all_side_lanes", VEH + "Vehicle.on_road"])
def highway(c):
    """Any number of lanes, any speed, any negative collision reward: the documented sum, in [0, 1], 0 off the road, never more
    after a crash, never less at a higher speed."""
    n, k, t = c.int("lanes", 1, s=(1, 5)), c.int("lane", 0, s=(0, 4)), c.int("target", 0, s=(0, 4))
    c.require(And(lt(k, n), lt(t, n)))
    cls = c.choice("class", ["Vehicle", "MDPVehicle", "IDMVehicle"])
    v = bare(c, cls, speed=c.real("v", s=(-5, 45)))
    v.lane_index, v.target_lane_index = ("a", "b", k), ("a", "b", t)
    v.lane = abstract_lane(c)
    v.crashed = c.bool("crashed")
    cr = -c.pos("penalty", s=(.1, 5))
    lo, span = c.real("lo", s=(0, 25)), c.pos("span", s=(1, 20))
    e = env_of(c, "HighwayEnv", v, collision_reward=cr, reward_speed_range=[lo, lo + span])
    e.road = v.road = road(c, lanes_of(c, n))
    right = ite(lt(1, n), (k if cls == "Vehicle" else t) * 1. / vmax(n - 1, 1), 0) if c.sym else (k if cls == "Vehicle" else t) / max(n - 1, 1)

    def want(speed, crashed):
        return mapped((cr if crashed else 0) + .1 * right + .4 * clip((speed - lo) / span, 0, 1), cr, .5)
    on = c.fork(v.lane.on_lane(v.position))
    got = e._reward(0)
    if not on:
        c.ensure("nothing off the road", eq(got, 0))
        return
    c.ensure("the documented sum", eq(got, want(v.speed, v.crashed)))
    c.ensure("in [0, 1]", within(want(v.speed, v.crashed), 0, 1))
    c.ensure("never more after a crash", le(want(v.speed, True), want(v.speed, False)))
    faster = c.real("increase", 0, s=(0, 20))
    c.ensure("never less at a higher speed", le(want(v.speed, v.crashed), want(v.speed + faster, v.crashed)))


@contract("C27.roundabout", [RA + "._reward", LMAP, CTRL + "MDPVehicle.get_speed_index"])
def roundabout(c):
    """The documented sum, in [0, 1], less after a crash, more at a higher speed index, less for lane changes."""
    from highway_env.vehicle.controller import MDPVehicle
    top = MDPVehicle.SPEED_COUNT - 1
    mdp = c.bool("mdp")
    v = bare(c, "MDPVehicle" if mdp else "Vehicle", speed=c.real("v", s=(-5, 45)))
    if mdp:
        i = v.speed_index = c.int("index", 0, s=(0, 2))
        c.require(le(i, top))
    else:
        i = MDPVehicle.speed_to_index_default(v.speed)
    v.crashed = c.bool("crashed")
    a = c.choice("action", [0, 1, 2, 3, 4])
    e = env_of(c, "RoundaboutEnv", v)
    got = e._reward(a)

    def want(i, crashed, changes):
        return mapped((-1 if crashed else 0) + .2 * i / top - (.05 if changes else 0), -1.05, .2)
    c.ensure("the documented sum", eq(got, want(i, v.crashed, a in (0, 2))))
    c.ensure("in [0, 1]", within(got, 0, 1))
    c.ensure("never more after a crash", le(want(i, True, a in (0, 2)), want(i, False, a in (0, 2))))
    c.ensure("never less at a higher speed", le(want(i, v.crashed, a in (0, 2)), want(i + 1, v.crashed, a in (0, 2))))


@contract("C27.agent", [IS + "._agent_reward", IS + ".has_arrived", LMAP])
def agent(c):
    """Intersections: the arrival reward once arrived, else the documented sum; in [0, 1] when normalised; never more after a
    crash, never less at the top speed."""
    v = bare(c, "MDPVehicle")
    a, b = c.choice("from", ["o0", "ir2", "il1"]), c.choice("to", ["ir0", "il2", "o1"])
    v.lane_index, v.lane = (a, b, 0), abstract_lane(c)
    v.SPEED_COUNT, v.speed_index = c.int("speeds", 1, s=(1, 4)), c.int("index", 0, s=(0, 3))
    c.require(lt(v.speed_index, v.SPEED_COUNT))
    v.crashed = c.bool("crashed")
    norm = c.bool("normalised")
    cr = -c.pos("penalty", s=(.1, 8))
    e = env_of(c, "IntersectionEnv", v, collision_reward=cr, normalize_reward=norm)
    arrived = a == "il1" and b == "o1" and c.fork(le(25, v.lane.local_coordinates(v.position)[0]))
    got = e._agent_reward(c.choice("action", [0, 1, 2]), v)

    def want(top, crashed):
        r = 1 if arrived else (cr if crashed else 0) + ite(top, 1, 0)
        return mapped(r, cr, 1) if norm else r
    top = eq(v.speed_index, v.SPEED_COUNT - 1)
    c.ensure("the documented reward", eq(got, want(top, v.crashed)))
    if norm:
        c.ensure("in [0, 1]", within(want(top, v.crashed), 0, 1))
    c.ensure("never more after a crash", le(want(top, True), want(top, False)))
    c.ensure("never less at the top speed", And(le(want(False, True), want(True, True)), le(want(False, False), want(True, False))))
    if arrived and not norm:
        c.ensure("arrival reward", eq(got, 1))


@contract("C27.shared", [IS + "._reward"])
def shared(c):
    """Any number of agents: the shared reward is the mean of the agents' own; between 0 and 1 if they are."""
    e = env_of(c, "IntersectionEnv", None)
    e.controlled_vehicles, n = many(c, "vehicles", lambda k, tag: type("V", (), {"k": k})(), 1, (1, 4))
    act = c.choice("action", [0, 1, 2])
    log = []

    def own(action, vehicle):
        log.append(action)
        return per(c, "own reward", vehicle.k)
    e._agent_reward = own
    got = e._reward(act)
    c.ensure("the agents' rewards for this action", bool(log) and all(x == act for x in log))
    c.ensure("mean", eq(got * n, sum(per(c, "own reward", k) for k in range(n)) if not c.sym else mean_of(c, e, n)))


def mean_of(c, e, n):
    return e.controlled_vehicles.comp(lambda v: per(c, "own reward", v.k), []).sum()


@contract("C27.two-way", [TW + "._reward", ROAD + "RoadNetwork.all_side_lanes"])
def two_way(c):
    """At least two lanes and two speeds: the documented sum of speed and lane terms, in [0, 1], more at a higher speed index."""
    n, t = c.int("lanes", 2, s=(2, 5)), c.int("target", 0, s=(0, 4))
    c.require(lt(t, n))
    v = bare(c, "MDPVehicle")
    v.lane_index, v.target_lane_index = ("a", "b", 0), ("a", "b", t)
    v.SPEED_COUNT, v.speed_index = c.int("speeds", 2, s=(2, 4)), c.int("index", 0, s=(0, 3))
    c.require(lt(v.speed_index, v.SPEED_COUNT))
    v.crashed = c.bool("crashed")
    e = env_of(c, "TwoWayEnv", v)
    e.road = v.road = road(c, lanes_of(c, n))
    got = e._reward(c.choice("action", [0, 1]))
    want = lambda i: .8 * i / (v.SPEED_COUNT - 1) + .2 * (n - 1 - t) / (n - 1)
    c.ensure("the documented sum", eq(got, want(v.speed_index)))
    c.ensure("in [0, 1]", within(want(v.speed_index), 0, 1))
    c.ensure("never less at a higher speed", le(want(v.speed_index), want(v.speed_index + 1)))


@contract("C27.merge", [MG + "._reward", LMAP])
def merge(c):
    """Any number of vehicles: the documented sum of collision, lane, speed, lane-change and - over the controlled vehicles on
    the merging lane - slowness terms, mapped affinely from [-1.5, .3] to [0, 1]."""
    ego = bare(c, "MDPVehicle", "ego")
    ego.lane_index = ("b", "c", c.int("lane", 0, s=(0, 2)))
    ego.SPEED_COUNT, ego.speed_index = c.int("speeds", 2, s=(2, 4)), c.int("index", 0, s=(0, 3))
    c.require(lt(ego.speed_index, ego.SPEED_COUNT))
    ego.crashed = c.bool("crashed")
    a = c.choice("action", [0, 1, 2, 3, 4])
    e = env_of(c, "MergeEnv", ego)

    def make(k, tag):
        v = bare(c, c.choice("class" + tag, ["IDMVehicle", "MDPVehicle", "Vehicle"]), tag, speed=per(c, "speed of", k, s=(0, 30)))
        v.lane_index = ("b", "c", c.choice("lane" + tag, [1, 2])) if c.bool("on the road" + tag) else ("j", "k", 2)
        v.target_speed = per(c, "target speed of", k, s=(5, 30))
        c.require(lt(0, v.target_speed))
        return v

    def slow(v):
        if v.lane_index == ("b", "c", 2) and type(v).__name__ in ("IDMVehicle", "MDPVehicle"):
            return -.5 * (v.target_speed - v.speed) / v.target_speed
        return 0
    vs, n = many(c, "vehicles", make)
    e.road = road(c, None, vs)
    base = (-1 if ego.crashed else 0) + .1 * ego.lane_index[2] + .2 * ego.speed_index / (ego.SPEED_COUNT - 1)
    if c.sym:
        # total(k): the sum of the terms of the first k vehicles
        total = lambda k: T.uf("total", T.lift(k))
        c.require(eq(total(0), 0))

        phase = ["init"]

        def havoc(cc, seq, seen):
            phase[0] = "assume"
            return {"reward": base + total(seq.k)}

        def inv(cc, seq, st, seen):
            if phase[0] == "init":
                return [("nothing yet", eq(st["reward"], base))]
            if phase[0] == "assume":
                phase[0] = "step"
                return []
            c.require(eq(total(seq.k), total(seq.k - 1) + slow(vs.at(seq.k - 1))))       # the definition of total
            return [("one term more", eq(st["reward"], base + total(seq.k)))]
        c.loops["many"] = LoopSpec(("reward",), havoc, inv)
        s = total(n)
    else:
        s = sum(slow(v) for v in vs)
    got = e._reward(a)
    c.ensure("the documented sum", eq(got, mapped(base + s - (.05 if a in (0, 2) else 0), -1.5, .3)))
    c.ensure("never more after a crash", le(mapped(-1, -1.5, .3), mapped(0, -1.5, .3)))


@contract("C27.lane-keeping", [LK + "._reward"])
def lane_keeping(c):
    """One minus the squared lateral offset in lane widths: at most 1, 1 exactly on the centre line, less further out."""
    v = bare(c, "BicycleVehicle")
    e = env_of(c, "LaneKeepingEnv", v)
    e.lane = abstract_lane(c)
    got = e._reward(c.choice("action", [0, 1]))
    lat = e.lane.local_coordinates(v.position)[1]
    c.ensure("the documented reward", eq(got, 1 - (lat / e.lane.width) * (lat / e.lane.width)))
    c.ensure("at most 1", le(got, 1))
