from contracts._common import *
from contracts.c27 import env_of, HW, RA, IS, TW, MG, LK

ABSP = ABS + "AbstractEnv.vehicle"


def ego_of(c, cls="MDPVehicle", tag="ego"):
    v = bare(c, cls, tag)
    v.crashed = c.bool("crashed" + tag)
    return v


def clock(c, e):
    """Steps done and configured duration."""
    e.steps = c.int("steps", 0, s=(0, 20))
    e.config["duration"] = c.real("duration", 0, s=(0, 20))
    if not c.sym:
        e.config["duration"] = c.choice("round", [e.config["duration"], float(e.steps)])
    return e.steps, e.config["duration"]


@contract("C28.highway", [HW + "._is_terminal", HW + "._cost", VEH + "Vehicle.on_road"])
def highway(c):
    """Ends exactly on a crash, after the duration, or - if so configured - off the road; the cost is the crash."""
    v = ego_of(c, c.choice("class", ["Vehicle", "MDPVehicle"]))
    v.lane = abstract_lane(c)
    e = env_of(c, "HighwayEnv", v, offroad_terminal=c.bool("offroad terminal"))
    steps, duration = clock(c, e)
    on = c.fork(v.lane.on_lane(v.position))
    out = e.config["offroad_terminal"] and not on
    c.ensure("ends", Iff(truth(c, e._is_terminal()), Or(v.crashed, le(duration, steps), out)))
    c.ensure("cost", eq(e._cost(c.choice("action", [0, 1])), 1 if v.crashed else 0))


def truth(c, x):
    """The truth value of what the code returned."""
    if isinstance(x, (bool, B)):
        return x
    if isinstance(x, R):
        return ne(x, 0)
    return bool(x)


@contract("C28.merge", [MG + "._is_terminal"])
def merge(c):
    """Ends exactly on a crash or past x = 370 m."""
    v = ego_of(c)
    if not c.sym:
        v.position[0] = c.real("x", s=(300, 440))
    e = env_of(c, "MergeEnv", v)
    e.steps = c.int("steps", 0, s=(0, 99))
    c.ensure("ends", Iff(truth(c, e._is_terminal()), Or(v.crashed, lt(370, v.position[0]))))


@contract("C28.roundabout", [RA + "._is_terminal"])
def roundabout(c):
    """Ends exactly on a crash or after the duration."""
    v = ego_of(c)
    e = env_of(c, "RoundaboutEnv", v)
    steps, duration = clock(c, e)
    c.ensure("ends", Iff(truth(c, e._is_terminal()), Or(v.crashed, le(duration, steps))))


@contract("C28.two-way", [TW + "._is_terminal", TW + "._cost"])
def two_way(c):
    """Ends exactly on a crash; the cost is 1 for a crash plus 1/15 on lane 0."""
    v = ego_of(c)
    v.lane_index = (c.choice("from", ["a", "b"]), "b", c.int("lane", 0, s=(0, 2)))
    e = env_of(c, "TwoWayEnv", v)
    e.steps = c.int("steps", 0, s=(0, 99))
    c.ensure("ends", Iff(truth(c, e._is_terminal()), v.crashed))
    left = c.fork(eq(v.lane_index[2], 0))
    c.ensure("cost", eq(e._cost(c.choice("action", [0, 1])), (1 if v.crashed else 0) + (1 / 15 if left else 0) if not c.sym
                        else (T.num(1) if v.crashed else T.ZERO) + (T.num(1) / 15 if left else 0)))


@contract("C28.lane-keeping", [LK + "._is_terminal"])
def lane_keeping(c):
    """Never ends."""
    v = ego_of(c)
    e = env_of(c, "LaneKeepingEnv", v)
    e.lane = abstract_lane(c)
    e.steps = c.int("steps", 0, s=(0, 99))
    c.ensure("never", e._is_terminal() is False or Not(truth(c, e._is_terminal())))


@contract("C28.arrived", [IS + ".has_arrived", IS + "._agent_is_terminal", IS + "._cost"])
def arrived(c):
    """A vehicle has arrived exactly on an exit lane, at least 25 m in; an agent's own flag: its crash, its arrival, time out."""
    v, w = ego_of(c, tag="v"), ego_of(c, tag="ego")
    v.lane_index = (c.choice("from", ["o0", "ir2", "il1", "il3"]), c.choice("to", ["ir0", "il2", "o1"]), 0)
    v.lane = abstract_lane(c)
    e = env_of(c, "IntersectionEnv", w)
    steps, duration = clock(c, e)
    e.config["policy_frequency"] = pf = c.choice("policy frequency", [1, 2, 5])
    at = v.lane.local_coordinates(v.position)[0]
    there = v.lane_index[0] in ("il1", "il3") and v.lane_index[1] == "o1" and c.fork(le(25, at))
    c.ensure("arrived", Iff(truth(c, e.has_arrived(v)), there))
    d = c.real("exit distance", s=(0, 50))
    exit_ = v.lane_index[0] in ("il1", "il3") and v.lane_index[1] == "o1"
    c.ensure("arrived, at another distance", Iff(truth(c, e.has_arrived(v, d)), And(exit_, le(d, at))))
    c.ensure("the agent's flag", Iff(truth(c, e._agent_is_terminal(v)), Or(v.crashed, there, le(duration * pf, steps))))
    c.ensure("cost of the ego", eq(e._cost(0), 1 if w.crashed else 0))


@contract("C28.intersection", [IS + "._is_terminal"])
def intersection(c):
    """Any number of controlled vehicles: ends exactly when any of them crashed, all have arrived, or the time is out."""
    import types
    vs, n = many(c, "vehicles", lambda k, tag: types.SimpleNamespace(k=k, crashed=lt(0, per(c, "crash", k, s=(-3, 1)))), 1, (1, 4))
    e = env_of(c, "IntersectionEnv", None)
    e.controlled_vehicles = vs
    steps, duration = clock(c, e)
    e.config["policy_frequency"] = pf = c.choice("policy frequency", [1, 2, 5])
    e.has_arrived = lambda vehicle, exit_distance=25: lt(0, per(c, "arrival", vehicle.k, s=(-1, 3)))
    if not c.sym:
        for v in vs:
            v.crashed = bool(v.crashed)
        has = [bool(e.has_arrived(v)) for v in vs]
        e.has_arrived = lambda vehicle, exit_distance=25: has[vehicle.k]
        c.ensure("ends", bool(e._is_terminal()) == (any(v.crashed for v in vs) or all(has) or steps >= duration * pf))
        return
    i = c.int("any vehicle", 0)
    c.at(i)
    c.require(lt(i, n))
    crash, arrive = (lambda k: lt(0, per(c, "crash", k))), (lambda k: lt(0, per(c, "arrival", k)))
    got = c.fork(truth(c, e._is_terminal()))
    late = le(duration * pf, steps)
    if got:
        # some vehicle crashed, or not (some vehicle has not arrived), or it is late
        c.ensure("only then", Or(late, *[And(crash(k), le(0, k), lt(k, n)) for k in found(c)], arrive(i)))
    else:
        c.ensure("when any crashed or it is late", And(Not(crash(i)), Not(late)))
        c.ensure("when all have arrived", Or(*[And(Not(arrive(k)), le(0, k), lt(k, n)) for k in found(c)]))


def found(c):
    """The positions at which the code found an element to be true (any) or false (all)."""
    return [v for v in c.positions]
