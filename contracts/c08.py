from contracts._common import *

TARGETS = [VEH + "Vehicle.step", VEH + "Vehicle.on_state_update"]


def _moved(c, v, p0, h0, v0, steer, acc, dt, LEN):
    beta = atan(tan(steer) / 2)
    c.ensure("position", And(eq(v.position[0], p0[0] + v0 * cos(h0 + beta) * dt), eq(v.position[1], p0[1] + v0 * sin(h0 + beta) * dt)))
    c.ensure("heading", eq(v.heading, h0 + v0 * sin(beta) / (LEN / 2) * dt))
    c.ensure("speed", eq(v.speed, v0 + acc * dt))


def _setup(c, cls, crashed):
    v = bare(c, cls, crashed=crashed)
    steer = c.real("steering", s=(-1.2, 1.2))
    if not c.sym:
        c.require(abs(abs(steer) - c.pi / 2) > 0.05)
    v.action = {"steering": steer, "acceleration": c.real("acceleration", s=(-6, 6))}
    net = AnyNetwork(c, lane=object())
    v.road = road(c, net)
    sized(c, v)
    return v, net, c.pos("dt", s=(0.01, 1))


@contract("C08.step", TARGETS + [BEH + "IDMVehicle.step", VEH + "Vehicle.clip_actions"])
def step(c):
    """Motion of one step, every vehicle class that uses the kinematic model, crashed or not, any speed."""
    v, net, dt = _setup(c, c.choice("class", ["Vehicle", "ControlledVehicle", "MDPVehicle", "IDMVehicle", "LinearVehicle"]),
                        c.bool("crashed"))
    p0, h0, v0 = v.position.copy(), v.heading, v.speed
    L = v.LENGTH
    v.step(dt)
    _moved(c, v, p0, h0, v0, v.action["steering"], v.action["acceleration"], dt, L)
    c.ensure("lane looked up at the new state", And(len(net.calls) >= 1, eq(net.calls[-1][0], v.position),
                                                    eq(net.calls[-1][1], v.heading)))
    c.ensure("lane recorded", And(v.lane_index == net.index, v.lane is net.lane))


@contract("C08.command", TARGETS)
def command(c):
    """A vehicle within its speed limits that is not crashed applies its command as given."""
    v, net, dt = _setup(c, "Vehicle", False)
    c.require(within(v.speed, -v.MAX_SPEED, v.MAX_SPEED))
    p0, h0, v0 = v.position.copy(), v.heading, v.speed
    a = dict(v.action)
    v.step(dt)
    _moved(c, v, p0, h0, v0, a["steering"], a["acceleration"], dt, v.LENGTH)


@contract("C08.straight", TARGETS)
def straight_(c):
    """Zero steering: exactly straight ahead, heading unchanged."""
    v, net, dt = _setup(c, "Vehicle", c.bool("crashed"))
    v.action["steering"] = 0
    p0, h0, v0 = v.position.copy(), v.heading, v.speed
    v.step(dt)
    c.ensure("heading unchanged", eq(v.heading, h0))
    c.ensure("straight ahead", And(eq(v.position[0], p0[0] + v0 * dt * cos(h0)), eq(v.position[1], p0[1] + v0 * dt * sin(h0))))


@contract("C08.still", TARGETS)
def still(c):
    """A stationary vehicle neither moves nor turns."""
    v, net, dt = _setup(c, "Vehicle", c.bool("crashed"))
    v.speed = 0
    p0, h0 = v.position.copy(), v.heading
    v.step(dt)
    c.ensure("does not move", eq(v.position, p0))
    c.ensure("does not turn", eq(v.heading, h0))
