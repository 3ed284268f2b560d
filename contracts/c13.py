from contracts._common import *

SC = CTRL + "ControlledVehicle.steering_control"


def nz(x):
    """The speed, with values within 0.01 of zero replaced by +-0.01."""
    return ite(lt(0.01, absv(x)), x, ite(lt(0, x), 0.01, -0.01))


def _veh(c, lane, cls=None, **kw):
    v = bare(c, cls or c.choice("class", ["ControlledVehicle", "MDPVehicle", "IDMVehicle"]), speed=c.real("v", s=(-3, 30)), **kw)
    v.lane_index = v.target_lane_index = ("a", "b", 0)
    v.lane = lane
    v.road = road(c, network(c, {("a", "b"): [lane]}), (v,))
    return v


def expected(c, v, lane):
    s, r = lane.local_coordinates(v.position)
    ahead = lane.heading_at(s + v.speed * v.PURSUIT_TAU)
    ref = ahead + clip(asin(clip(-v.KP_LATERAL * r / nz(v.speed), -1, 1)), -c.pi / 4, c.pi / 4)
    rate = v.KP_HEADING * wrapped(ref - v.heading, c)
    return clip(asin(clip(v.LENGTH / 2 / nz(v.speed) * rate, -1, 1)), -c.pi / 3, c.pi / 3)


@contract("C13.not-zero", [UTIL + "not_zero"])
def not_zero(c):
    """Speeds near zero are replaced by +-0.01, all others kept: the result is never within 0.01 of zero."""
    from highway_env import utils
    x = c.real("x", s=(-.05, .05))
    y = utils.not_zero(x)
    c.ensure("value", eq(y, nz(x)))
    c.ensure("never near zero", le(0.01, absv(y)))


@contract("C13.cascade", [SC, UTIL + "not_zero", UTIL + "wrap_to_pi"])
def cascade(c):
    """The steering command is the documented cascade, for any lane, state and speed."""
    lane = abstract_lane(c)
    v = sized(c, _veh(c, lane))
    asked_before(c, [v], lambda: v.steering_control(v.target_lane_index))
    got = v.steering_control(v.target_lane_index)
    c.ensure("cascade", eq(got, expected(c, v, lane)))
    c.ensure("within +-pi/3", within(got, -c.pi / 3, c.pi / 3))


@contract("C13.gains", [CTRL + "ControlledVehicle"])
def gains(c):
    """The configured gains: time constants 0.6 s and 0.2 s, pursuit 0.1 s, lateral gain a third of the heading gain."""
    from highway_env.vehicle.controller import ControlledVehicle as V
    c.ensure("gains", And(abs(V.KP_A - 1 / 0.6) < 1e-12, abs(V.KP_HEADING - 5) < 1e-12, abs(V.KP_LATERAL - 5 / 3) < 1e-12,
                          abs(V.PURSUIT_TAU - .1) < 1e-12, eq(V.MAX_STEERING_ANGLE, c.pi / 3), V.LENGTH == 5))


@contract("C13.centred", [SC])
def centred(c):
    """Zero steering when centred and aligned with a straight lane (at any speed)."""
    lane = polar(c)
    s = c.real("s", s=(0, 50))
    v = _veh(c, lane, pos=lane.position(s, 0), heading=lane.heading_at(s) + 2 * c.pi * c.int("turns", -2, 2))
    c.ensure("zero", eq(v.steering_control(v.target_lane_index), 0))


@contract("C13.speed", [CTRL + "ControlledVehicle.speed_control"])
def speed(c):
    """The speed command is proportional to the speed error with gain 1/0.6."""
    v = _veh(c, abstract_lane(c))
    t = c.real("target", s=(-5, 40))
    c.ensure("proportional", eq(v.speed_control(t), (t - v.speed) / 0.6))


@contract("C13.stored", [CTRL + "ControlledVehicle.act", CTRL + "MDPVehicle.act"])
def stored(c):
    """The stored action is exactly the two commands for the current targets (after the meta-action was taken in)."""
    lanes = [abstract_lane(c, "0"), abstract_lane(c, "1")]
    v = _veh(c, lanes[0], c.choice("class", ["ControlledVehicle", "MDPVehicle"]))
    v.road.network.add_lane("a", "b", lanes[1])
    v.target_speed = c.real("target_speed", s=(0, 40))
    v.speed_index = c.smallint("speed_index", 0, 2)
    net = v.road.network
    # the steering command for each lane: C13.cascade
    cmd = [c.real("cmd0", -c.pi / 3, c.pi / 3), c.real("cmd1", -c.pi / 3, c.pi / 3)]
    if c.sym:
        v.steering_control = lambda index: cmd[index[2]] if isinstance(index[2], int) else ite(eq(index[2], 0), cmd[0], cmd[1])
        c.require(Not(lanes[0].after_end(v.position)))
        c.note("steering_control replaced by its contract C13.cascade (a value within +-pi/3 per lane)")
    else:
        c.require(Not(lanes[0].after_end(v.position)))
    v.act(c.choice("action", [None, "IDLE", "FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT"]))
    c.ensure("steering", eq(v.action["steering"], v.steering_control(v.target_lane_index)))
    c.ensure("acceleration", eq(v.action["acceleration"], (v.target_speed - v.speed) / 0.6))
    c.ensure("nothing else", set(v.action) == {"steering", "acceleration"})
