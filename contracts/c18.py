from contracts._common import *

LV = BEH + "LinearVehicle."


def nz(x):
    return ite(lt(0.01, absv(x)), x, ite(lt(0, x), 0.01, -0.01))


def me(c, cls=None):
    v = bare(c, cls or c.choice("class", ["LinearVehicle"]), "me")
    v.target_speed = c.real("target_speed", s=(-1, 35))
    return v


def params(c, v):
    v.ACCELERATION_PARAMETERS = c.vec("wa", 3, s=(-1, 3))
    v.STEERING_PARAMETERS = c.vec("wb", 2, s=(-2, 8))
    v.DISTANCE_WANTED = c.real("d0", 0, s=(0, 12))
    v.TIME_WANTED = c.real("T", 0, s=(0, 3))


def wanted_features(v, ego, front, lane):
    vt, dv, dp = 0, 0, 0
    if ego is not None:
        vt = ego.target_speed - ego.speed
        if front is not None:
            dv = vmin(front.speed - ego.speed, 0)
            d = lane.local_coordinates(front.position)[0] - lane.local_coordinates(ego.position)[0]
            dp = vmin(d - (v.DISTANCE_WANTED + vmax(ego.speed, 0) * v.TIME_WANTED), 0)
    return [vt, dv, dp]


@contract("C18.acceleration", [LV + "acceleration", LV + "acceleration_features", VEH + "Vehicle.lane_distance_to"])
def acceleration(c):
    """The acceleration is the dot product of the acceleration parameters with the documented features."""
    v = me(c)
    params(c, v)
    who = c.choice("who", ["itself", "other", "nobody"])
    ego = v if who == "itself" else None if who == "nobody" else bare(c, c.choice("kind", ["IDMVehicle", "ControlledVehicle"]), "ego")
    lane = abstract_lane(c)
    if ego is not None:
        ego.lane = lane
        ego.target_speed = c.real("target_speed_ego", s=(-1, 35))
    k = c.choice("front", ["none", "Vehicle", "Obstacle"])
    front = None if k == "none" else bare(c, k, "front") if k == "Vehicle" else obstacle(c, "front")
    f = wanted_features(v, ego, front, lane)
    got = v.acceleration_features(ego, front, None)
    c.ensure("features", eq(got, f))
    c.ensure("acceleration", eq(v.acceleration(ego, front), dot(v.ACCELERATION_PARAMETERS, f)))


def steering_features(c, v, lane):
    s, r = lane.local_coordinates(v.position)
    ahead = lane.heading_at(s + v.speed * v.PURSUIT_TAU)
    d = ahead - v.heading
    pi = c.pi
    w = d - 2 * pi * floor((d + pi) / (2 * pi))
    return [w * v.LENGTH / nz(v.speed), -r * v.LENGTH / (nz(v.speed) * nz(v.speed))]


@contract("C18.steering", [LV + "steering_control", LV + "steering_features"])
def steering(c):
    """The steering is the dot product of the steering parameters with the heading and lateral features of the given lane."""
    v = sized(c, me(c))
    params(c, v)
    lane = abstract_lane(c)
    v.road = road(c, network(c, {("a", "b"): [abstract_lane(c, "0"), lane]}))
    f = steering_features(c, v, lane)
    c.ensure("features", eq(v.steering_features(("a", "b", 1)), f))
    c.ensure("steering", eq(v.steering_control(("a", "b", 1)), dot(v.STEERING_PARAMETERS, f)))


@contract("C18.randomised", [LV + "randomize_behavior"])
def randomised(c):
    """Randomised parameters are independent draws within the declared ranges, made for this vehicle only."""
    import numpy as np
    from highway_env.vehicle.behavior import LinearVehicle
    v = me(c)
    before = list(LinearVehicle.ACCELERATION_PARAMETERS), list(LinearVehicle.STEERING_PARAMETERS)
    v.road = road(c, None)
    if not c.sym:
        v.road.np_random = np.random.RandomState(int(1e6 * abs(v.speed)) % 2 ** 31)
    v.randomize_behavior()
    shares = []
    for name, own, rng, base in (("acceleration", v.ACCELERATION_PARAMETERS, v.ACCELERATION_RANGE, before[0]),
                                 ("steering", v.STEERING_PARAMETERS, v.STEERING_RANGE, before[1])):
        c.ensure("as many %s parameters" % name, len(own) == len(base))
        c.ensure("%s within its range" % name, And(*[And(le(rng[0][i], own[i]), le(own[i], rng[1][i])) for i in range(len(base))]))
        if not c.sym:
            shares += [(own[i] - rng[0][i]) / (rng[1][i] - rng[0][i]) for i in range(len(base))]
            c.ensure("%s drawn one by one" % name, all(abs(x - y) > 1e-9 for i, x in enumerate(shares) for y in shares[:i]))
        if c.sym:
            draws = [x for k, x in v.road.np_random.log]
            c.ensure("%s covers its range" % name, And(*[eq(own[i], rng[0][i] + draws[0 if name == "acceleration" else 1][i] * (rng[1][i] - rng[0][i]))
                                                        for i in range(len(base))]))
    c.ensure("the class keeps its defaults", before == (list(LinearVehicle.ACCELERATION_PARAMETERS), list(LinearVehicle.STEERING_PARAMETERS)))


@contract("C18.ranges", [BEH + "LinearVehicle"])
def ranges(c):
    """The declared ranges: half to one and a half times the nominal acceleration parameters; nominal steering +-(0.07, 1.5)."""
    from highway_env.vehicle.behavior import LinearVehicle as V
    p, s = [0.3, 0.3, 2.0], [5, 25 / 3]
    c.ensure("nominal", And(eq(list(V.ACCELERATION_PARAMETERS), p), eq(list(V.STEERING_PARAMETERS), s)))
    c.ensure("acceleration range", And(eq(list(V.ACCELERATION_RANGE[0]), [.5 * x for x in p]), eq(list(V.ACCELERATION_RANGE[1]), [1.5 * x for x in p])))
    c.ensure("steering range", And(eq(list(V.STEERING_RANGE[0]), [s[0] - .07, s[1] - 1.5]), eq(list(V.STEERING_RANGE[1]), [s[0] + .07, s[1] + 1.5])))


@contract("C18.samples", [LV + "add_features", LV + "collect_data", LV + "act"])
def samples(c):
    """Each act appends one sample per regression, made before acting: the recorded features and the parameters applied to
    them (to the features of the output lane, when a different one is given); none when not collecting."""
    v = me(c)
    params(c, v)
    lanes = [abstract_lane(c, "0"), abstract_lane(c, "1")]
    front = bare(c, "Vehicle", "front") if c.bool("front") else None
    v.road = road(c, network(c, {("a", "b"): lanes}))
    v.road.neighbour_vehicles = lambda veh, lane_index=None: (front, None)
    v.lane_index, v.target_lane_index = ("a", "b", c.choice("own lane", [0, 1])), ("a", "b", c.choice("lane", [0, 1]))
    v.lane, target = lanes[v.lane_index[2]], lanes[v.target_lane_index[2]]
    v.crashed = True                        # the rest of act is C16.act
    v.collecting_data = c.bool("collecting")
    old = c.bool("earlier samples")
    v.data = {"longitudinal": {"features": ["x"], "outputs": ["y"]}, "lateral": {"features": ["z"], "outputs": ["w"]}} if old else {}
    n = 1 if old else 0
    how = c.choice("how", ["act", "features", "output lane"])
    out = target
    if how == "act":
        v.act()
    elif how == "features":
        v.add_features(v.data, v.target_lane_index)
    else:
        k = c.choice("output lane", [0, 1])
        out = lanes[k]
        v.add_features(v.data, v.target_lane_index, output_lane=("a", "b", k))
    if how == "act" and not v.collecting_data:
        c.ensure("nothing recorded", (len(v.data["lateral"]["features"]) == 1 if old else v.data == {}))
        return
    for name in ("longitudinal", "lateral"):
        c.ensure("one sample each", len(v.data[name]["features"]) == len(v.data[name]["outputs"]) == n + 1)
    f = wanted_features(v, v, front, v.lane)
    c.ensure("longitudinal features", eq(v.data["longitudinal"]["features"][-1], f))
    c.ensure("longitudinal output", eq(v.data["longitudinal"]["outputs"][-1], dot(v.ACCELERATION_PARAMETERS, f)))
    g = steering_features(c, v, target)
    c.ensure("lateral features", eq(v.data["lateral"]["features"][-1], g))
    c.ensure("lateral output", eq(v.data["lateral"]["outputs"][-1], dot(v.STEERING_PARAMETERS, steering_features(c, v, out))))
    if old:
        c.ensure("earlier samples kept", v.data["longitudinal"]["features"][0] == "x" and v.data["lateral"]["outputs"][0] == "w")
