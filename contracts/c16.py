from contracts._common import *

A = BEH + "IDMVehicle.acceleration"
DG = BEH + "IDMVehicle.desired_gap"


def nz(x):
    return ite(lt(0.01, absv(x)), x, ite(lt(0, x), 0.01, -0.01))


def parameters(c, v):
    """Arbitrary parameters of the model."""
    v.COMFORT_ACC_MAX = c.pos("a", s=(1, 5))
    v.COMFORT_ACC_MIN = -c.pos("b", s=(1, 8))
    v.DISTANCE_WANTED = c.real("d0", 0, s=(0, 12))
    v.TIME_WANTED = c.real("T", 0, s=(0, 3))
    v.DELTA = 4.0


def other(c, tag, kinds=("Vehicle", "ControlledVehicle", "IDMVehicle", "Obstacle")):
    k = c.choice("kind" + tag, list(kinds))
    if k == "none":
        return None
    if k in ("Obstacle", "Landmark"):
        return obstacle(c, tag, k)
    v = bare(c, k, tag)
    if k != "Vehicle":
        v.target_speed = c.real("target_speed" + tag, s=(-1, 35))
    return v


def gap(v, ego, front):
    """The desired gap of the model."""
    dv = dot(velocity(ego) - velocity(front), [cos(ego.heading), sin(ego.heading)])
    return v.DISTANCE_WANTED + ego.speed * v.TIME_WANTED + ego.speed * dv / (2 * sqrt(-v.COMFORT_ACC_MAX * v.COMFORT_ACC_MIN))


def velocity(x):
    import numpy as np
    return np.array([x.speed * cos(x.heading), x.speed * sin(x.heading)], dtype=object if isinstance(x.speed * cos(x.heading), R) else float)


@contract("C16.gap", [DG])
def desired_gap(c):
    """The desired gap is d0 + v T + v dv / (2 sqrt(ab)), dv projected on the vehicle's heading (or the plain speed difference)."""
    v = bare(c, "IDMVehicle", "me")
    parameters(c, v)
    ego, front = other(c, "ego", ("Vehicle", "IDMVehicle")), other(c, "front", ("Vehicle", "Obstacle"))
    c.ensure("projected", eq(v.desired_gap(ego, front), gap(v, ego, front)))
    c.ensure("not projected", eq(v.desired_gap(ego, front, projected=False), v.DISTANCE_WANTED + ego.speed * v.TIME_WANTED
             + ego.speed * (ego.speed - front.speed) / (2 * sqrt(-v.COMFORT_ACC_MAX * v.COMFORT_ACC_MIN))))


@contract("C16.law", [A, DG, VEH + "Vehicle.lane_distance_to", UTIL + "not_zero"], tol=1e-5)
def law(c):
    """The commanded acceleration is the car-following law, for any vehicle, any leader and any parameters."""
    v = bare(c, "IDMVehicle", "me")
    parameters(c, v)
    ego = v if c.bool("for itself") else other(c, "ego", ("Vehicle", "ControlledVehicle", "IDMVehicle"))
    if ego is v:
        v.target_speed = c.real("target_speed", s=(-1, 35))
    lane = abstract_lane(c)
    ego.lane = lane
    front = other(c, "front", ("none", "Vehicle", "IDMVehicle", "Obstacle"))
    v0 = nz(getattr(ego, "target_speed", 0))
    # the gap of the model is a function of its own contract C16.gap
    if c.stubs_on:
        c.stub(type(v), "desired_gap", lambda self, e, f=None, projected=True: gap(self, e, f))
    asked_before(c, [x for x in (ego, front) if x is not None], lambda: v.acceleration(ego, front))
    got = v.acceleration(ego, front) if c.bool("positional") else v.acceleration(ego_vehicle=ego, front_vehicle=front, rear_vehicle=None)
    want = v.COMFORT_ACC_MAX * (1 - power(vmax(ego.speed, 0) / v0, 4))
    if front is not None:
        d = lane.local_coordinates(front.position)[0] - lane.local_coordinates(ego.position)[0]
        want = want - v.COMFORT_ACC_MAX * power(gap(v, ego, front) / nz(d), 2)
    c.ensure("law", eq(got, want))


@contract("C16.nobody", [A])
def nobody(c):
    """A missing vehicle and a static object get 0."""
    v = bare(c, "IDMVehicle", "me")
    ego = c.choice("who", [None, "Obstacle", "Landmark"])
    ego = ego if ego is None else obstacle(c, "ego", ego)
    c.ensure("zero", eq(v.acceleration(ego_vehicle=ego, front_vehicle=other(c, "front", ("none", "Vehicle"))), 0))


@contract("C16.constants", [BEH + "IDMVehicle"])
def constants(c):
    """The model's default parameters."""
    from highway_env.vehicle.behavior import IDMVehicle as V
    c.ensure("parameters", (V.ACC_MAX, V.COMFORT_ACC_MAX, V.COMFORT_ACC_MIN, V.DISTANCE_WANTED, V.TIME_WANTED, V.DELTA)
             == (6.0, 3.0, -5.0, 10.0, 1.5, 4.0))


@contract("C16.act", [BEH + "IDMVehicle.act"])
def act(c):
    """The stored action is the law's command for its own neighbours, clipped to +-6, and the lane-following command for its
    target lane, clipped to +-pi/3; a crashed vehicle keeps its action; lane changes are decided only when enabled."""
    v = bare(c, c.choice("class", ["IDMVehicle", "LinearVehicle"]), crashed=c.bool("crashed"),
             enable_lane_change=c.bool("lane changes enabled"))
    if hasattr(v, "collecting_data"):
        v.collecting_data = False
    f, r = other(c, "f", ("none", "Vehicle")), other(c, "r", ("none", "Vehicle"))
    log = []
    a, s = c.real("command", s=(-20, 20)), c.real("steer", s=(-3, 3))
    v.target_lane_index = v.lane_index = ("a", "b", 0)
    v.road = road(c, None)
    v.road.neighbour_vehicles = lambda veh, lane_index=None: (f, r) if veh is v and (lane_index is None or lane_index == v.lane_index) else 1 / 0
    v.follow_road = lambda: log.append("follow")
    v.change_lane_policy = lambda: (log.append("policy"), setattr(v, "target_lane_index", ("a", "b", 1)))

    def steering(index):
        log.append(("steer", index))
        return s

    def acceleration(ego_vehicle, front_vehicle=None, rear_vehicle=None):
        log.append(("accelerate", ego_vehicle, front_vehicle, rear_vehicle))
        return a
    v.steering_control, v.acceleration = steering, acceleration
    c.note("IDMVehicle.act is proved over the contracts of neighbour_vehicles (C07), follow_road (C06), change_lane_policy (C17), "
           "steering_control (C13) and acceleration (C16.law)")
    action0 = dict(v.action)
    v.act(c.choice("action", [None, "FASTER", {"steering": 1, "acceleration": 1}]))
    if v.crashed:
        c.ensure("a crashed vehicle keeps its action", v.action == action0 and not log)
        return
    c.ensure("acceleration", eq(v.action["acceleration"], clip(a, -6, 6)))
    c.ensure("steering", eq(v.action["steering"], clip(s, -c.pi / 3, c.pi / 3)))
    c.ensure("follows its route, then decides on a lane change when enabled",
             [x for x in log if isinstance(x, str)] == ["follow"] + ["policy"] * v.enable_lane_change)
    c.ensure("for its own neighbours", all(x[1] is v and x[2] is f for x in log if x[0] == "accelerate"))
    c.ensure("to its target lane", [x[1] for x in log if x[0] == "steer"] == [v.target_lane_index]
             and log.index(("steer", v.target_lane_index)) > log.index("policy" if v.enable_lane_change else "follow"))


@contract("C16.step", [BEH + "IDMVehicle.step"])
def step(c):
    """A step advances the lane-change timer by dt and is otherwise the vehicle's motion (C08)."""
    from highway_env.vehicle.kinematics import Vehicle
    v = bare(c, "IDMVehicle", heading=c.real("h", s=(-4, 4)), crashed=c.bool("crashed"))
    v.timer = c.real("timer", 0, s=(0, 2))
    v.action = {"steering": c.real("steering", -1, 1), "acceleration": c.real("acceleration", s=(-6, 6))}
    w = bare(c, "Vehicle", "w", pos=v.position.copy(), heading=v.heading, speed=v.speed, crashed=v.crashed)
    w.action = dict(v.action)
    t, dt = v.timer, c.pos("dt", 1, s=(0.01, 1))
    v.step(dt)
    Vehicle.step(w, dt)
    c.ensure("timer", eq(v.timer, t + dt))
    c.ensure("motion", And(eq(v.position, w.position), eq(v.heading, w.heading), eq(v.speed, w.speed)))


@contract("C16.timer", [BEH + "IDMVehicle.__init__"])
def timer(c):
    """The initial timer is the one given, otherwise a phase in [0, lane-change delay) set by the position."""
    from highway_env.vehicle.behavior import IDMVehicle
    given = c.real("given", 0, s=(0, 1)) if c.bool("timer given") else None
    p = c.vec("p", 2)
    lane = abstract_lane(c)
    lane.speed_limit = 20
    v = IDMVehicle(road(c, AnyNetwork(c, lane=lane)), p, 0, 0, timer=given)
    if given is not None and c.fork(ne(given, 0)):
        c.ensure("given", eq(v.timer, given))
    else:
        c.ensure("phase", And(le(0, v.timer), lt(v.timer, 1)))
        c.ensure("of the position", is_int((p[0] + p[1]) * c.pi - v.timer))
