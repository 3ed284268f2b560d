from contracts._common import *

TARGETS = [VEH + "Vehicle.clip_actions", DYN + "BicycleVehicle.clip_actions"]


def _setup(c):
    v = bare(c, c.choice("class", ["Vehicle", "IDMVehicle", "MDPVehicle", "BicycleVehicle"]), speed=c.real("v", s=(-60, 60)))
    v.action = {"steering": c.real("steering", s=(-1.2, 1.2)), "acceleration": c.real("acceleration", s=(-20, 20))}
    return v


@contract("C09.crashed", TARGETS)
def crashed(c):
    """A crashed vehicle steers straight and brakes proportionally to its speed (more, only above its maximum speed)."""
    v = _setup(c)
    v.crashed = True
    v.clip_actions()
    c.ensure("steers straight", eq(v.action["steering"], 0))
    c.ensure("brakes", eq(v.action["acceleration"], -v.speed))


@contract("C09.crashed-step", TARGETS + [VEH + "Vehicle.step", DYN + "BicycleVehicle.step"])
def crashed_step(c):
    """Over a step of up to 1 s the speed of a crashed vehicle neither changes sign nor grows in magnitude."""
    v = _setup(c)
    v.crashed = True
    dt = c.real("dt", 0, 1, s=(0, 1))
    v0 = v.speed
    v.step(dt)
    c.ensure("speed", eq(v.speed, v0 * (1 - dt)))
    c.ensure("sign kept", le(0, v.speed * v0))
    c.ensure("not faster", le(absv(v.speed), absv(v0)))


@contract("C09.limits", TARGETS)
def limits(c):
    """Above the maximum speed (either direction) the acceleration is limited to proportional approach; else unchanged."""
    v = _setup(c)
    v.crashed = False
    a, s, M = v.action["acceleration"], v.action["steering"], v.MAX_SPEED
    v.clip_actions()
    want = ite(lt(M, v.speed), vmin(a, M - v.speed), ite(lt(v.speed, -M), vmax(a, -M - v.speed), a))
    c.ensure("acceleration", eq(v.action["acceleration"], want))
    if type(v).__name__ == "BicycleVehicle":
        c.ensure("steering within the model's range", eq(v.action["steering"], clip(s, -c.pi / 2, c.pi / 2)))
    else:
        c.ensure("steering unchanged", eq(v.action["steering"], s))


@contract("C09.limits-step", TARGETS + [VEH + "Vehicle.step", DYN + "BicycleVehicle.step"])
def limits_step(c):
    """Above the limit, a step of up to 1 s never drives the speed further out and approaches the limit proportionally."""
    v = _setup(c)
    dt = c.real("dt", 0, 1, s=(0, 1))
    if not c.sym:
        c.require(abs(v.action["steering"]) < 1.5)
    v0, M = v.speed, v.MAX_SPEED
    v.step(dt)
    c.ensure("forward", Implies(lt(M, v0), le(v.speed, v0 + (M - v0) * dt)))
    c.ensure("reverse", Implies(lt(v0, -M), le(v0 + (-M - v0) * dt, v.speed)))


@contract("C09.own", TARGETS + [VEH + "Vehicle.__init__", VEH + "Vehicle.create_from", VEH + "Vehicle.step"])
def own(c):
    """Crashing and braking are a vehicle's own: vehicles made like it, or from it, go on as they were."""
    r = road(c, AnyNetwork(c, lane=abstract_lane(c)), record_history=False)
    cls = vehicle_classes()[c.choice("class", ["Vehicle", "ControlledVehicle", "MDPVehicle", "IDMVehicle", "BicycleVehicle"])]
    make = lambda tag: cls(r, c.vec("pos" + tag, 2, s=(-30, 60)), c.real("heading" + tag, s=(-3, 3)), c.real("speed" + tag, s=(-20, 30)))
    v, w = make(" of one"), make(" of another")
    x = cls.create_from(v)
    if c.bool("commanded"):
        VEHICLE = vehicle_classes()["Vehicle"]
        VEHICLE.act(w, {"steering": 0, "acceleration": c.real("acceleration", s=(-5, 5))})
    before = [(u, snap(u)) for u in (w, x)]
    v.crashed = True
    v.step(c.pos("dt", s=(.01, 1)))
    for u, b in before:
        c.ensure("another vehicle is left alone", unchanged(u, b))
        c.ensure("and so are its commands", And(*[eq(u.action[k], b["action"][k]) for k in b["action"]]))
