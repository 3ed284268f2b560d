"""Harness helpers: arbitrary lanes, vehicles, roads, used by the contracts in both modes."""
from pyvc.api import *

LANE = "highway_env.road.lane:"
ROAD = "highway_env.road.road:"
VEH = "highway_env.vehicle.kinematics:"
CTRL = "highway_env.vehicle.controller:"
BEH = "highway_env.vehicle.behavior:"
DYN = "highway_env.vehicle.dynamics:"
OBJ = "highway_env.road.objects:"
REG = "highway_env.road.regulation:"
UTIL = "highway_env.utils:"
ENVS = "highway_env.envs."
ABS = "highway_env.envs.common.abstract:"
ACT = "highway_env.envs.common.action:"
OBS = "highway_env.envs.common.observation:"
FMDP = "highway_env.envs.common.finite_mdp:"
GFX = "highway_env.road.graphics:"
ITV = "highway_env.interval:"
PRED = "highway_env.vehicle.uncertainty.prediction:"
EST = "highway_env.vehicle.uncertainty.estimation:"


class Refuses:
    """Base of stand-ins: what the contract does not describe is refused (undecided), not an error of the code."""

    def _refuse(self, *a, **k):
        raise Unsupported("this use of %s" % type(self).__name__)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s.%s" % (type(self).__name__, name))
    __iter__ = __len__ = __getitem__ = __setitem__ = __delitem__ = __contains__ = __add__ = __radd__ = __iadd__ = __mul__ = _refuse
    __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __call__ = __reversed__ = __index__ = __int__ = __float__ = _refuse
    __sub__ = __rsub__ = __enter__ = _refuse


def straight(c, tag="", width=None, **kw):
    from highway_env.road.lane import StraightLane
    sx, sy = c.real("sx" + tag, s=(-50, 50)), c.real("sy" + tag, s=(-50, 50))
    ex, ey = c.real("ex" + tag, s=(-50, 50)), c.real("ey" + tag, s=(-50, 50))
    c.require(Or(ne(sx, ex), ne(sy, ey)))
    return StraightLane(c.arr([sx, sy]), c.arr([ex, ey]), c.pos("width" + tag, s=(2, 6)) if width is None else width, **kw)


def along_x(c, tag="", width=None, **kw):
    """A straight lane along the x axis (the shape of every lane of the highway-like environments)."""
    from highway_env.road.lane import StraightLane
    sx, y, L = c.real("sx" + tag, s=(-50, 50)), c.real("sy" + tag, s=(-20, 20)), c.pos("L" + tag, s=(20, 400))
    return StraightLane(c.arr([sx, y]), c.arr([sx + L, y]), c.pos("width" + tag, s=(2, 6)) if width is None else width, **kw)


def ends_polar(c, tag=""):
    """Any two distinct points, the second given by its distance and direction from the first."""
    sx, sy = c.real("sx" + tag, s=(-50, 50)), c.real("sy" + tag, s=(-50, 50))
    L, h = c.pos("L" + tag, s=(5, 80)), c.real("h" + tag, -c.pi, c.pi)
    c.require(lt(-c.pi, h))
    return c.arr([sx, sy]), c.arr([sx + L * cos(h), sy + L * sin(h)]), L, h


def polar(c, tag="", width=None, **kw):
    """Any straight lane, its end given in polar coordinates."""
    from highway_env.road.lane import StraightLane
    a, b, L, h = ends_polar(c, tag)
    return StraightLane(a, b, c.pos("width" + tag, s=(2, 6)) if width is None else width, **kw)


def sine(c, tag="", **kw):
    from highway_env.road.lane import SineLane
    a, b, L, h = ends_polar(c, tag)
    return SineLane(a, b, c.real("amplitude" + tag, s=(-5, 5)),
                    c.real("pulsation" + tag, s=(-.3, .3)), c.real("phase" + tag, s=(-3, 3)),
                    c.pos("width" + tag, s=(2, 6)), **kw)


def circular(c, tag="", **kw):
    from highway_env.road.lane import CircularLane
    r = c.pos("radius" + tag, s=(5, 40))
    return CircularLane(c.vec("centre" + tag, 2, s=(-30, 30)), r, c.real("start" + tag, s=(-4, 4)),
                        c.real("end" + tag, s=(-4, 4)), c.bool("clockwise" + tag), c.pos("width" + tag, s=(2, 6)), **kw)


KINDS = {"straight": straight, "sine": sine, "circular": circular}


def any_lane(c, tag="", **kw):
    return KINDS[c.choice("kind" + tag, list(KINDS))](c, tag, **kw)


def abstract_lane(c, tag="", width=None, **kw):
    """Any lane at all: its geometry is known only through its contract (an uninterpreted frame).  With floats: one of the
    real lanes."""
    if not c.sym:
        return any_lane(c, tag, **kw)
    from highway_env.road.lane import AbstractLane

    class AnyLane(AbstractLane):
        def local_coordinates(self, position):
            return (T.uf("lon" + tag, position[0], position[1]), T.uf("lat" + tag, position[0], position[1]))

        def position(self, longitudinal, lateral):
            if getattr(longitudinal, "shape", None) == (1,):
                longitudinal = longitudinal[0]
            return c.arr([T.uf("px" + tag, longitudinal, lateral), T.uf("py" + tag, longitudinal, lateral)])

        def heading_at(self, longitudinal):
            return T.uf("hd" + tag, longitudinal)

        def width_at(self, longitudinal):
            return self.width
    lane = AnyLane()
    lane.width = c.pos("width" + tag) if width is None else width
    lane.length = c.real("length" + tag)
    lane.forbidden = kw.get("forbidden", False)
    lane.speed_limit = kw.get("speed_limit", 20)
    lane.priority = kw.get("priority", 0)
    lane.line_types = [1, 1]
    return lane


def wrapped(x, c):
    """x brought to [-pi, pi) by whole turns."""
    pi = c.pi
    return x - 2 * pi * floor((x + pi) / (2 * pi))


# ---------------------------------------------------------------- vehicles, networks, roads
def network(c, lanes):
    """A RoadNetwork with the given lanes: {(from, to): [lane, ...]} in this order."""
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    for (f, t), ls in lanes.items():
        for l in ls:
            net.add_lane(f, t, l)
    return net


def vehicle_classes():
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
    from highway_env.vehicle.dynamics import BicycleVehicle
    return dict(Vehicle=Vehicle, ControlledVehicle=ControlledVehicle, MDPVehicle=MDPVehicle, IDMVehicle=IDMVehicle,
                LinearVehicle=LinearVehicle, BicycleVehicle=BicycleVehicle)


def bare(c, cls, tag="", pos=None, heading=None, speed=None, road=None, **attrs):
    """A vehicle of class cls in an arbitrary state, made without looking up its lane (road is attached afterwards)."""
    if isinstance(cls, str):
        import highway_env.vehicle.behavior as behavior
        cls = vehicle_classes().get(cls) or getattr(behavior, cls)
    p = c.vec("pos" + tag, 2, s=(-30, 60)) if pos is None else pos
    h = c.real("heading" + tag, s=(-4, 4)) if heading is None else heading
    v = c.real("speed" + tag, s=(-10, 45)) if speed is None else speed
    v0 = vehicle_classes()["Vehicle"](None, p, h, v)
    veh = object.__new__(cls)
    veh.__dict__.update(v0.__dict__)
    veh.road = road
    # Whatever a contract says nothing about is arbitrary
    if "crashed" not in attrs:
        veh.crashed = c.symbool("crashed" + tag)
    if "action" not in attrs:
        veh.action = {"steering": c.real("steering" + tag, s=(-0.7, 0.7)), "acceleration": c.real("acceleration" + tag, s=(-5, 5))}
    if "lane" not in attrs:
        veh.lane = abstract_lane(c, "_own" + tag)
    if hasattr(cls, "TAU_A"):
        veh.target_lane_index, veh.route = None, None
        veh.target_speed = attrs["target_speed"] if "target_speed" in attrs else c.real("target_speed" + tag, s=(-5, 40))
    if hasattr(cls, "LANE_CHANGE_DELAY"):
        veh.enable_lane_change = attrs["enable_lane_change"] if "enable_lane_change" in attrs else c.symbool("changes_lanes" + tag)
        veh.timer = attrs["timer"] if "timer" in attrs else c.real("timer" + tag, s=(0, 3))
    if hasattr(cls, "ACCELERATION_PARAMETERS"):
        veh.data, veh.collecting_data = {}, True
    if hasattr(cls, "FRICTION_FRONT"):
        veh.lateral_speed = veh.yaw_rate = 0
        veh.theta = None
    for k, x in attrs.items():
        setattr(veh, k, x)
    return veh


def sized(c, v, tag="", s=((2, 12), (1, 4))):
    """v with a body of any length and width."""
    v.LENGTH, v.WIDTH = c.pos("length" + tag, s=s[0]), c.pos("width" + tag, s=s[1])
    return v


def obstacle(c, tag="", cls="Obstacle", pos=None, heading=None, speed=0.):
    import highway_env.road.objects as o
    obj = getattr(o, cls)(None, c.vec("opos" + tag, 2, s=(-30, 60)) if pos is None else pos, speed,
                          c.real("oheading" + tag, s=(-4, 4)) if heading is None else heading)
    obj.hit = c.symbool("hit" + tag)
    return obj


def road(c, net=None, vehicles=(), objects=(), rng=None, cls=None, record_history=False):
    from highway_env.road.road import Road
    r = (cls or Road)(net, [], None, rng or Rng(c), record_history)
    r.vehicles = list(vehicles) if type(vehicles) is tuple else vehicles
    r.objects = list(objects) if type(objects) is tuple else objects
    for v in list(r.vehicles) + list(r.objects) if isinstance(r.vehicles, list) and isinstance(r.objects, list) else []:
        v.road = r
    return r


class Rng:
    """The environment's generator: every draw is an arbitrary value of its range."""

    def __init__(self, c, name="draw", log=None):
        self.c, self.name, self.log = c, name, [] if log is None else log

    def __deepcopy__(self, memo):
        return self

    def _note(self, what, v):
        self.log.append((what, v))
        return v

    def _many(self, size, one):
        if size is None:
            return one()
        shape = (size,) if isinstance(size, int) else tuple(size)
        n = 1
        for k in shape:
            n *= int(k)
        return self.c.arr([one() for _ in range(n)]).reshape(shape)

    def randint(self, low, high=None, size=None, dtype=None):
        lo, hi = (0, low) if high is None else (low, high)
        one = lambda: lo + self.c.choice(self.name + "_int", list(range(int(hi - lo))))
        return self._note("randint", self._many(size, one))

    def rand(self, *shape):
        one = lambda: self._real(0, 1)
        return self._note("rand", one() if not shape else self._many(shape, one))

    def random_sample(self, size=None):
        return self._note("random_sample", self._many(size, lambda: self._real(0, 1)))

    random = random_sample

    def _real(self, lo, hi):
        u = self.c.real(self.name + "_u", 0, 1, s=(0, 1))
        return lo + u * (hi - lo)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._note("uniform", self._many(size, lambda: self._real(low, high)))

    def _normal(self):
        v = self.c.real(self.name + "_n", s=(-3, 3))
        return v if self.c.sym else max(-4., min(4., v))       # a sampled draw is one that occurs

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._note("normal", self._many(size, lambda: loc + scale * self._normal()))

    def randn(self, *shape):
        one = self._normal
        return self._note("randn", one() if not shape else self._many(shape, one))

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, R) and a.const() is None:      # one of 0, ..., a-1, a unknown
            if size is not None or p is not None:
                raise Unsupported("choice of several among an unknown number")
            k = self.c.int(self.name + "_choice", 0)
            self.c.require(lt(k, a))
            return self._note("choice", k)
        xs = list(range(int(a))) if isinstance(a, int) or not hasattr(a, "__len__") else list(a)
        if size is not None:
            n = size if isinstance(size, int) else int(size[0])
            left = list(range(len(xs)))
            out = []
            for _ in range(n):
                k = self.c.choice(self.name + "_choice", left)
                if not replace:
                    left = [i for i in left if i != k]
                out.append(xs[k])
            import numpy as np
            return self._note("choice", np.array(out) if not self.c.sym or not any(isinstance(x, R) for x in out) else self.c.arr(out))
        if p is not None:
            ks = [i for i, q in enumerate(p) if not (isinstance(q, (int, float)) and q == 0)]
        else:
            ks = list(range(len(xs)))
        return self._note("choice", xs[self.c.choice(self.name + "_choice", ks)])

    def shuffle(self, xs):
        left, out = [x.copy() if hasattr(x, "shape") else x for x in xs], []
        while left:
            k = self.c.choice(self.name + "_perm", list(range(len(left))))
            out.append(left.pop(k))
        if out:
            xs[:] = out
        self.log.append(("shuffle", None))

    def permutation(self, x):
        xs = list(range(x)) if isinstance(x, int) else list(x)
        self.shuffle(xs)
        return xs


def unchanged(veh, before, but=()):
    """No attribute of veh other than those named differs from the recorded __dict__ (shallow)."""
    out = []
    for k in set(before) | set(veh.__dict__):
        if k in but:
            continue
        if k not in before or k not in veh.__dict__:
            return False
        a, b = before[k], veh.__dict__[k]
        if a is b:
            continue
        out.append(eq(a, b))
    return And(True, *out)


def snap(veh):
    import numpy as np
    return {k: (v.copy() if isinstance(v, np.ndarray) else dict(v) if isinstance(v, dict) else v)
            for k, v in veh.__dict__.items()}


class AnyNetwork:
    """A road network known only through its queries: closest lane index and lane are recorded constants."""

    def __init__(self, c, index=("a", "b", 0), lane=None):
        self.c, self.index, self.lane, self.calls = c, index, lane, []
        self.graph = {index[0]: {index[1]: [lane]}}

    def get_closest_lane_index(self, position, heading=None):
        self.calls.append((position.copy(), heading))
        return self.index

    def get_lane(self, index):
        return self.lane


def bare_env(c, cls=None, **config):
    """An environment in an arbitrary state, made without building a scene."""
    from highway_env.envs.common.abstract import AbstractEnv
    e = object.__new__(cls or AbstractEnv)
    e.config = e.default_config()
    e.config.update(config)
    e.np_random = Rng(c)
    e.road, e.controlled_vehicles = None, []
    e.action_type = e.observation_type = e.action_space = e.observation_space = None
    e.time, e.steps, e.done = c.int("time now", 0, s=(0, 99)), c.int("steps so far", 0, s=(0, 60)), c.symbool("done before")
    e.viewer = e.automatic_rendering_callback = None
    e.should_update_rendering, e.rendering_mode, e.enable_auto_render = True, "human", False
    return e


def asked_before(c, things, ask):
    """In a concrete run: the question has been asked before, when the things were elsewhere (what was remembered then is stale
    now: positions are updated in place)."""
    if c.sym or c.bool("never asked before"):
        return
    now = [(x, x.position.copy(), x.heading, x.speed) for x in things]
    for x in things:
        x.position += [c.real("off", s=(-25, 25)), c.real("off", s=(-4, 4))]
        x.heading, x.speed = x.heading + c.real("turned", s=(-1, 1)), x.speed + c.real("faster", s=(-5, 5))
    try:
        ask()
    except (AssertionError, ArithmeticError):
        pass
    for x, p, h, s in now:
        x.position[...] = p
        x.heading, x.speed = h, s


def many(c, name, make, lo=0, s=(0, 4)):
    """(sequence, length): make(k, tag) gives the k-th of an unknown number (at least lo) of elements; in a concrete run, a real
    list.  make must depend on k only through functions (T.uf) of k."""
    n = c.int(name + " count", lo, s=s)
    if not c.sym:
        return [make(k, "%s%d" % (name, k)) for k in range(n)], n
    from pyvc.runtime import Many
    made = []

    def at(k):
        k = T.lift(k)
        for i, v in made:
            if i.m == k.m:
                return v
        made.append((k, make(k, "%s@%d" % (name, len(made)))))
        return made[-1][1]
    return Many(n, at), n


def per(c, name, k, tag=None, s=(0, 1)):
    """The real number belonging to the k-th element."""
    if c.sym:
        return T.uf(name, T.lift(k))
    if not hasattr(c, "pers"):
        c.pers = {}
    if (name, k) not in c.pers:
        c.pers[name, k] = c.real("%s[%d]" % (name, k), s=s)
    return c.pers[name, k]


def each(c, init, check, havoc=None):
    """Contract of a loop over a tuple of unknown length whose body only logs: init() before every iteration, check(k) gives
    the obligations after the iteration for the k-th element."""
    phase = ["init"]

    def inv(cc, seq, st, seen):
        if phase[0] == "step":
            return check(seq.k - 1)
        if phase[0] == "assume":
            phase[0] = "step"
        return []

    def hav(cc, seq, seen):
        phase[0] = "assume"
        spec.over += seq.k.m == seq.hi.m
        init()
        return {}
    spec = LoopSpec((), hav, inv)
    spec.over = 0           # how often such a loop was run to its end on this path
    return spec


def field(c, name, shape, s=(-2, 2), fact=None):
    """An array of real numbers of the given shape (sizes known or not); fact(element, indices) is a precondition that holds of
    every element."""
    import numpy as np
    if not c.sym or all(type(k) is int for k in shape):
        a = np.empty(tuple(int(k) for k in shape), dtype=object if c.sym else float)
        for i in np.ndindex(*a.shape):
            a[i] = c.real(name + "".join("_%d" % k for k in i), s=s)
            if fact:
                c.require(fact(a[i], i))
        return c.arr(a) if c.sym else a
    from pyvc.lazy import Lazy
    known = set()

    def f(*i):
        e = T.uf(name, *i)
        key = repr(i)
        if key not in known:
            known.add(key)
            if fact:
                c.require(fact(e, i))
        return e
    return Lazy(shape, f)


def total(c, n, f):
    """Sum of f(k), 0 <= k < n."""
    if c.sym:
        from pyvc.lazy import total as t
        return t(n, f)
    r = 0
    for k in range(int(n)):
        r = r + f(k)
    return r


def inside(c, f):
    """f at the bound position of a sum: what is proved of it holds at every position."""
    from pyvc import lazy
    lazy.DEPTH[0] += 1
    try:
        return f(lazy.bound(lazy.DEPTH[0] - 1))
    finally:
        lazy.DEPTH[0] -= 1


def index(c, name, n, s=(0, 3)):
    """Any position below n."""
    i = c.int(name, 0, s=s)
    if not c.sym:
        return i % int(n) if n else 0
    c.require(lt(i, n))
    return i


def elem(a, *i):
    """Element of an array of any size."""
    return a.at(*i) if hasattr(a, "at") else a[tuple(k if isinstance(k, R) else int(k) for k in i)] if i else a
