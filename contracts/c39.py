from contracts._common import *
import sys

GO = OBS + "GrayscaleObservation"
AO = OBS + "AttributesObservation"
KG = OBS + "KinematicsGoalObservation"
EV = ENVS + "common.graphics:EnvViewer"
LK = ENVS + "lane_keeping_env:LaneKeepingEnv"


@contract("C39.grayscale", [GO + ".observe", GO + "._record_to_grayscale", GO + ".__init__"])
def grayscale(c):
    """Any screen, stack and weights: the newest layer is the weighted sum of the colours of the frame rendered now, its first
    axis along the width; the others are those of the previous observation moved up by one, the oldest left out; observations
    returned before keep their values."""
    from highway_env.envs.common.observation import GrayscaleObservation
    c.lazy_shapes = True
    w, h, stack = c.int("width", 1, s=(1, 4)), c.int("height", 1, s=(1, 4)), c.int("stack", 1, s=(1, 3))
    weights = [c.real("weight %d" % k, s=(0, 1)) for k in range(3)]
    e = bare_env(c)
    frame = field(c, "frame", (h, w, 3), s=(0, 255))
    modes = []

    def render(mode="human"):
        modes.append(mode)
        return frame
    e.render = render
    o = GrayscaleObservation(e, {"type": "GrayscaleObservation", "weights": weights, "stack_size": stack,
                                 "observation_shape": (w, h)})
    i, j, k = index(c, "x", w), index(c, "y", h), index(c, "layer", stack)
    c.ensure("empty at first", eq(elem(o.state, i, j, k), 0))
    o.state = field(c, "seen", (w, h, stack), s=(0, 255))
    before, older = o.state, elem(o.state, i, j, k)
    got = o.observe()
    c.ensure("shape", And(len(got.shape) == 3, *[eq(a, b) for a, b in zip(got.shape, (w, h, stack))]))
    newest = lt(k + 1, stack)
    c.ensure("an image of now", modes == ["rgb_array"])
    lum = sum(weights[q] * elem(frame, j, i, q) for q in range(3))
    v = elem(got, i, j, k)
    if c.sym:
        c.ensure("newest layer last", Implies(eq(k, stack - 1), eq(v, lum)))
        c.ensure("earlier layers move up", Implies(lt(k, stack - 1), eq(v, T.uf("seen", T.lift(i), T.lift(j), T.lift(k) + 1))))
    else:
        c.ensure("newest layer last", eq(elem(got, i, j, stack - 1), lum))
        if k < stack - 1:
            c.ensure("earlier layers move up", eq(v, elem(before, i, j, k + 1)))
    c.ensure("the previous observation is kept", eq(elem(before, i, j, k), older))
    if c.bool("again"):
        frame2 = field(c, "frame2", (h, w, 3), s=(0, 255))
        e.render = lambda mode="human": frame2
        kept = elem(got, i, j, k)
        again = o.observe()
        lum2 = sum(weights[q] * elem(frame2, j, i, q) for q in range(3))
        c.ensure("next image", Implies(eq(k, stack - 1), eq(elem(again, i, j, k), lum2)))
        c.ensure("the first moves up", Implies(eq(k, stack - 2), eq(elem(again, i, j, k), lum)))
        c.ensure("the returned observation is kept", eq(elem(got, i, j, k), kept))


@contract("C39.grayscale-space", [GO + ".space"])
def grayscale_space(c):
    """The space has the observation's shape and contains every image whose weights sum to at most one."""
    from highway_env.envs.common.observation import GrayscaleObservation
    shape = c.choice("shape", [(2, 3), (4, 4), (84, 84)])
    stack = c.choice("stack", [1, 4])
    o = GrayscaleObservation(bare_env(c), {"weights": [.2989, .587, .114], "stack_size": stack, "observation_shape": shape})
    s = o.space()
    c.ensure("shape", s.shape == shape + (stack,) == o.shape)
    c.ensure("range", bool((s.low == 0).all() and (s.high == 255).all()))


@contract("C39.attributes", [AO + ".observe", AO + ".space", AO + ".__init__"])
def attributes(c):
    """Exactly the named attributes, as the environment has them when observing; one box of each attribute's shape."""
    import numpy as np
    import types
    from highway_env.envs.common.observation import AttributesObservation
    names = c.choice("names", [["state"], ["derivative", "state"], ["state", "derivative", "reference_state"]])
    env = types.SimpleNamespace(other=np.zeros(3))
    for k, n in enumerate(("state", "derivative", "reference_state")):
        setattr(env, n, np.zeros((4, k + 1)))
    o = AttributesObservation(env, names)
    late = {n: c.vec(n, 4 * (k + 1)).reshape((4, k + 1)) for k, n in enumerate(("state", "derivative", "reference_state"))}
    if c.bool("space first"):
        o.space()
    for n, v in late.items():
        setattr(env, n, v)
    got = o.observe()
    c.ensure("exactly the attributes", sorted(got) == sorted(names))
    for n in names:
        c.ensure("current value", eq(got[n], late[n]))
    s = o.space()
    c.ensure("a space for each", sorted(s.spaces) == sorted(names))
    for n in names:
        c.ensure("of its shape, unbounded", s.spaces[n].shape == late[n].shape and bool(np.isinf(s.spaces[n].low).all()
                                                                                        and np.isinf(s.spaces[n].high).all()))


@contract("C39.goal-space", [KG + ".space"])
def goal_space(c):
    """The goal observation's space has one unbounded box per part, of that part's shape."""
    import numpy as np
    from highway_env.envs.common.observation import KinematicsGoalObservation as O
    fs = c.choice("features", [["x", "y", "vx", "vy", "cos_h", "sin_h"], ["y", "presence", "sin_h"]])
    o = O(bare_env(c), scales=[1.] * len(fs), features=fs)
    n = c.choice("sizes", [(1, 2, 3), (6, 6, 6)])
    o.observe = lambda: {k: np.zeros(m) for k, m in zip(("observation", "achieved_goal", "desired_goal"), n)}
    s = o.space()
    c.ensure("parts", sorted(s.spaces) == ["achieved_goal", "desired_goal", "observation"])
    for k, m in zip(("observation", "achieved_goal", "desired_goal"), n):
        b = s.spaces[k]
        c.ensure("shape of its part, unbounded", b.shape == (m,) and bool(np.isinf(b.low).all() and np.isinf(b.high).all()))


TYPES = {"TimeToCollision": "TimeToCollisionObservation", "Kinematics": "KinematicObservation", "OccupancyGrid": "OccupancyGridObservation",
         "KinematicsGoal": "KinematicsGoalObservation", "GrayscaleObservation": "GrayscaleObservation",
         "AttributesObservation": "AttributesObservation", "MultiAgentObservation": "MultiAgentObservation"}


@contract("C39.factory", [OBS + "observation_factory"])
def factory(c):
    """Each configured type gives the observation of that name, for this environment, with the configured settings; an unknown
    type is refused."""
    import highway_env.envs.common.observation as m
    kind = c.choice("type", list(TYPES) + ["kinematics", "Camera"])
    e = bare_env(c)
    inner = {"type": "Kinematics", "vehicles_count": 3}
    config = {"type": kind, "features": ["presence", "y"], "vehicles_count": c.choice("count", [1, 7]), "horizon": c.choice("horizon", [3, 9]),
              "scales": [2., 3.], "weights": [1, 0, 0], "stack_size": 2, "observation_shape": (2, 2), "attributes": ["time", "steps"],
              "observation_config": inner}
    if kind not in TYPES:
        c.ensure("refused", isinstance(c.raises(m.observation_factory, e, config), ValueError))
        return
    if c.bool("agents"):
        e.controlled_vehicles = [bare(c, "Vehicle", str(k)) for k in range(2)]
    o = m.observation_factory(e, config)
    c.ensure("class of the type", type(o) is getattr(m, TYPES[kind]))
    c.ensure("this environment", o.env is e)
    if kind == "TimeToCollision":
        c.ensure("horizon", o.horizon == config["horizon"])
    elif kind in ("Kinematics", "KinematicsGoal"):
        c.ensure("features and count", o.features == ["presence", "y"] and o.vehicles_count == config["vehicles_count"])
        c.ensure("scales", kind == "Kinematics" or eq(o.scales, c.arr([2., 3.])))
    elif kind == "AttributesObservation":
        c.ensure("attributes", o.attributes == ["time", "steps"])
    elif kind == "MultiAgentObservation":
        c.ensure("one per agent", [type(x).__name__ for x in o.agents_observation_types] == ["KinematicObservation"] * len(e.controlled_vehicles)
                 and all(x.vehicles_count == 3 and x.observer_vehicle is v for x, v in zip(o.agents_observation_types, e.controlled_vehicles)))
    elif kind == "OccupancyGrid":
        c.ensure("features", o.features == ["presence", "y"])
    else:
        c.ensure("stack of images", o.shape == (2, 2, 2))


@contract("C39.observer", [OBS + "ObservationType.observer_vehicle"])
def observer(c):
    """The observer is the assigned vehicle, or whichever vehicle is the ego at the time."""
    from highway_env.envs.common.observation import ObservationType
    e = bare_env(c)
    a, b, w = (bare(c, "Vehicle", t) for t in "abw")
    e.controlled_vehicles = [a, w]
    o = ObservationType(e)
    c.ensure("the ego by default", o.observer_vehicle is a)
    e.controlled_vehicles = [b, a]
    c.ensure("the current ego", o.observer_vehicle is b)
    o.observer_vehicle = w
    c.ensure("the assigned one", o.observer_vehicle is w)
    e.vehicle = a
    c.ensure("still the assigned one", o.observer_vehicle is w)
    other = ObservationType(e)
    c.ensure("of this observation only", other.observer_vehicle is a)


@contract("C39.lane-keeping", [LK + ".reference_state", LK + ".state", LK + ".derivative"])
def lane_keeping(c):
    """The reference is the vehicle's lateral position on the centre line, the lane's heading there, and no lateral or yaw
    speed; before there is a vehicle everything is zero."""
    from highway_env.envs import LaneKeepingEnv
    env = object.__new__(LaneKeepingEnv)
    env.config = {"state_noise": 0, "derivative_noise": 0}
    env.np_random = Rng(c)
    lane = env.lane = abstract_lane(c)
    env.controlled_vehicles = []
    for n in ("state", "derivative", "reference_state"):
        z = getattr(env, n)
        c.ensure("nothing without a vehicle", z.shape == (4, 1) and not z.any())
    p = c.vec("position", 2, s=(-30, 60))
    rest = c.vec("rest", 4)
    slope = c.vec("slope", 6)

    class Car:
        position = p
        state = c.arr([p[0], p[1], rest[0], rest[1], rest[2], rest[3]]).reshape((6, 1))
        derivative = slope.reshape((6, 1))
    env.controlled_vehicles = [Car()]
    lon, lat = lane.local_coordinates(p)
    ref = env.reference_state
    c.ensure("lateral offset removed", eq(ref[0, 0], p[1] - lat))
    c.ensure("the lane's heading there", eq(ref[1, 0], lane.heading_at(lon)))
    c.ensure("at rest sideways", And(eq(ref[2, 0], 0), eq(ref[3, 0], 0), ref.shape == (4, 1)))
    for what, src in (("state", Car.state), ("derivative", Car.derivative)):
        got = getattr(env, what)
        for row, k in enumerate((1, 2, 4, 5)):
            c.ensure("without noise, the vehicle's own " + what, eq(got[row, 0], src[k, 0]))


@contract("C39.image", [EV + ".get_image"])
def image(c):
    """An image has one row per pixel of height: the pixel in row y, column x is the one drawn at (x, y); the window is taken
    only when the agent's own display is asked for and there is a window."""
    import numpy as np
    import pygame
    import types
    from highway_env.envs.common.graphics import EnvViewer
    v = object.__new__(EnvViewer)
    v.offscreen = c.bool("offscreen")
    agent = c.bool("render agent")
    v.env = types.SimpleNamespace(config={"render_agent": agent})
    v.sim_surface = "scene"
    if not v.offscreen:
        v.screen = "window"
    w, h = c.choice("size", [(3, 2), (2, 4)])
    data = {"scene": np.arange(w * h * 3).reshape(w, h, 3), "window": -np.arange(w * h * 3).reshape(w, h, 3)}
    c.patch(pygame.surfarray, "array3d", lambda s: data[s].copy())
    got = v.get_image()
    src = data["window" if agent and not v.offscreen else "scene"]
    c.ensure("shape", got.shape == (h, w, 3))
    c.ensure("pixels", all((got[y, x] == src[x, y]).all() for x in range(w) for y in range(h)))


@contract("C39.render", [ABS + "AbstractEnv.render", ABS + "AbstractEnv._simulate", ABS + "AbstractEnv._automatic_rendering",
                         ABS + "AbstractEnv.reset"])
def render(c):
    """Whatever resets, steps and renderings went before, an image shows the scene as it is: one drawn after the last change."""
    import types
    import highway_env.envs.common.abstract as m
    e = bare_env(c, simulation_frequency=2, policy_frequency=1, offscreen_rendering=c.bool("offscreen"))
    scene = [0]                                 # the state of the scene

    class Viewer:
        offscreen = e.config["offscreen_rendering"]
        __seen = None

        def __init__(self, env=None):
            pass

        def display(self):
            self.__seen = scene[0]

        def get_image(self):
            return ("image", self.__seen)

        def handle_events(self):
            pass
    c.patch(m, "EnvViewer", Viewer)

    def moves(*a):
        scene[0] += 1
    e.road = types.SimpleNamespace(act=lambda: None, step=moves)
    e.controlled_vehicles = [types.SimpleNamespace(speed=0, crashed=False)]
    e._reset = moves
    e.define_spaces = lambda: None
    e._reward, e._is_terminal = lambda a: 0, lambda: False
    e.action_type = types.SimpleNamespace(act=lambda a: None)
    look = c.choice("observation", ["image", "numbers"])
    e.observation_type = types.SimpleNamespace(observe=lambda: e.render("rgb_array") if look == "image" else None)
    fresh = lambda im: im == ("image", scene[0])
    for k in range(3):
        what = c.choice("call", ["reset", "step", "image", "show"])
        if what == "reset":
            o = e.reset()
        elif what == "step":
            o = e.step(1)[0]
        elif what == "image":
            o = None
            c.ensure("image of now", fresh(e.render("rgb_array")))
        else:
            o = None
            e.render("human")
            c.ensure("shown as it is now", e.viewer.get_image()[1] == scene[0])
        if o is not None:
            c.ensure("observed image of now", fresh(o))
    c.ensure("image of now", fresh(e.render("rgb_array")))
