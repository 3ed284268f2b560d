from contracts._common import *

M = CTRL + "MDPVehicle."
TG = [M + "index_to_speed", M + "speed_to_index"]


def _cls(c):
    """An MDP vehicle class with any speed grid."""
    from highway_env.vehicle.controller import MDPVehicle
    if c.choice("grid", ["several", "single"]) == "several":
        n = c.int("intervals", 1, s=(1, 7)) + 1
    else:
        n = 1
    lo, step = c.real("min", s=(-10, 30)), c.pos("range", s=(1, 40))
    return type("Mdp", (MDPVehicle,), dict(SPEED_COUNT=n, SPEED_MIN=lo, SPEED_MAX=lo + step)), n, lo, lo + step


def regridded(c, cls):
    """A vehicle of this class, or one that got this grid of its own after it was used with the default one."""
    if c.bool("grid of its class"):
        return bare(c, cls)
    v = bare(c, "MDPVehicle")
    v.speed_index = v.speed_to_index(v.index_to_speed(1))
    v.SPEED_COUNT, v.SPEED_MIN, v.SPEED_MAX = cls.SPEED_COUNT, cls.SPEED_MIN, cls.SPEED_MAX
    return v


def any_speed(c, n, lo, hi):
    """Any speed, given by its position on the grid (so that the scaled value is one variable)."""
    if isinstance(n, int) and n == 1:
        return c.real("x", s=(-20, 60))
    return lo + c.real("u", s=(-2, 9)) * (hi - lo) / (n - 1)


def grid(k, n, lo, hi):
    return lo + k * (hi - lo) / (n - 1) if not (isinstance(n, int) and n == 1) else lo


@contract("C15.grid", TG)
def grid_(c):
    """index_to_speed is the evenly spaced grid."""
    cls, n, lo, hi = _cls(c)
    v = regridded(c, cls)
    k = c.int("k", 0, s=(0, 7))
    c.require(lt(k, n))
    c.ensure("grid speed", eq(v.index_to_speed(k), grid(k, n, lo, hi)))
    c.ensure("ends", And(eq(v.index_to_speed(0), lo), True if isinstance(n, int) and n == 1 else eq(v.index_to_speed(n - 1), hi)))


@contract("C15.nearest", TG + [M + "speed_to_index_default", M + "get_speed_index"])
def nearest(c):
    """speed_to_index returns the index of the nearest grid speed, for every speed."""
    cls, n, lo, hi = _cls(c)
    v = bare(c, cls)
    x = any_speed(c, n, lo, hi)
    i = v.speed_to_index(x)
    c.ensure("an index", And(is_int(i), le(0, i), le(i, n - 1)))
    k = c.int("k", 0, s=(0, 7))
    c.require(lt(k, n))
    if isinstance(n, int) and n == 1:
        c.ensure("only index", eq(i, 0))
    else:
        # in units of the grid spacing
        u = (x - lo) / (hi - lo) * (n - 1)
        if c.sym:
            c.lemma("rounding error", Or(eq(i, 0), eq(i, n - 1), le(absv(u - i), 0.5)))
            c.lemma("beyond the ends", And(Implies(eq(i, 0), Or(le(u, 0.5), eq(n, 1))), Implies(eq(i, n - 1), le(n - 1.5, u))))
            c.lemma("integers", Or(eq(k, i), le(k, i - 1), le(i + 1, k)))
        c.ensure("no grid speed is nearer", le(absv(u - i), absv(u - k)))
    c.ensure("class-level version agrees", eq(cls.speed_to_index_default(x), i))
    v.speed = x
    c.ensure("get_speed_index of a vehicle without index", eq(cls.get_speed_index(v), i))


@contract("C15.inverse", TG)
def inverse(c):
    """On the grid, speed_to_index inverts index_to_speed."""
    cls, n, lo, hi = _cls(c)
    v = regridded(c, cls)
    k = c.int("k", 0, s=(0, 7))
    c.require(lt(k, n))
    c.ensure("inverse", eq(v.speed_to_index(v.index_to_speed(k)), k))


@contract("C15.construct", [M + "__init__"])
def construct(c):
    """After construction the target speed is the grid speed nearest to the requested (or current) speed."""
    cls, n, lo, hi = _cls(c)
    net = AnyNetwork(c, lane=object())
    v0, t = c.real("v", s=(0, 45)), c.choice("with target", [True, False]) and c.pos("target", s=(1, 45))
    v = cls(road(c, net), c.vec("p", 2), c.real("h"), v0, target_speed=t or None)
    c.ensure("index in range", And(is_int(v.speed_index), le(0, v.speed_index), le(v.speed_index, n - 1)))
    c.ensure("on the grid", eq(v.target_speed, grid(v.speed_index, n, lo, hi)))
    c.ensure("the nearest", eq(v.speed_index, v.speed_to_index(t or v0)))
    c.ensure("target lane is its own", v.target_lane_index == net.index)


@contract("C15.act", [M + "act", CTRL + "ControlledVehicle.act"])
def act(c):
    """After every action the target speed is the grid speed of the index; FASTER/SLOWER select the index above/below the one
    nearest to the current speed, clipped; others leave it alone."""
    cls, n, lo, hi = _cls(c)
    v = bare(c, cls)
    lane = abstract_lane(c)
    v.lane_index = v.target_lane_index = ("a", "b", 0)
    v.road = road(c, network(c, {("a", "b"): [lane]}), (v,))
    v.steering_control = lambda index: 0
    v.follow_road = lambda: None
    k = c.int("index", 0, s=(0, 7))
    c.require(lt(k, n))
    v.speed = any_speed(c, n, lo, hi)
    v.speed_index, v.target_speed = k, grid(k, n, lo, hi)
    a = c.choice("action", [None, "IDLE", "FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT"])
    near = v.speed_to_index(v.speed)
    v.act(a)
    d = {"FASTER": 1, "SLOWER": -1}.get(a)
    c.ensure("index", eq(v.speed_index, k if d is None else clip(near + d, 0, n - 1)))
    c.ensure("index in range", And(is_int(v.speed_index), le(0, v.speed_index), le(v.speed_index, n - 1)))
    c.ensure("target speed on the grid", eq(v.target_speed, grid(v.speed_index, n, lo, hi)))


@contract("C15.default", [CTRL + "MDPVehicle"])
def default(c):
    """The default grid is 20, 25, 30 m/s."""
    from highway_env.vehicle.controller import MDPVehicle as V
    c.ensure("grid", And(V.SPEED_COUNT == 3, V.SPEED_MIN == 20, V.SPEED_MAX == 30))
