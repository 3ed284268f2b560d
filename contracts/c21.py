from contracts._common import *

CA, DA, MA = ACT + "ContinuousAction", ACT + "DiscreteMetaAction", ACT + "MultiAgentAction"


class Agent:
    """A vehicle as the action type sees it."""

    def __init__(self, log, name="agent"):
        self.log, self.name, self.crashed = log, name, False

    def act(self, a=None):
        self.log.append((self, a))


def axes(c):
    lon, lat = c.bool("longitudinal"), c.bool("lateral")
    return lon, lat


def pair(c, name):
    lo, hi = c.real(name + "_lo", s=(-6, 0)), c.real(name + "_hi", s=(0, 6))
    return [lo, hi]


@contract("C21.continuous", [CA, CA + ".act", ACT + "ActionType.controlled_vehicle", UTIL + "lmap"])
def continuous(c):
    """One command per action: the clipped throttle and steering mapped affinely onto their ranges; a disabled axis gets 0."""
    from highway_env.envs.common.action import ContinuousAction as A
    env, log = bare_env(c), []
    ego, other = Agent(log), Agent(log, "other")
    env.controlled_vehicles = [ego, other]
    lon, lat = axes(c)
    own = c.bool("ranges configured")
    ra, rs = (pair(c, "acceleration"), pair(c, "steering")) if own else ((-5, 5.0), (-c.pi / 4, c.pi / 4))
    clipped = c.bool("clip")
    kw = dict(longitudinal=lon, lateral=lat, clip=clipped)
    if own:
        kw.update(acceleration_range=ra, steering_range=rs)
    if not (lon or lat):
        c.ensure("at least one axis", isinstance(c.raises(A, env, **kw), ValueError))
        return
    a = A(env, **kw)
    c.ensure("range of the throttle", eq(list(a.acceleration_range), list(ra)))
    c.ensure("range of the steering", eq(list(a.steering_range), list(rs)))
    size = 2 if lon and lat else 1
    sp = a.space()
    c.ensure("space", And(sp.shape == (size,), (sp.low == -1).all(), (sp.high == 1).all()))
    mine = ego
    if c.bool("assigned"):
        a.controlled_vehicle = mine = other
    u = c.vec("action", size, s=(-2, 2))
    cl = (lambda x: clip(x, -1, 1)) if clipped else (lambda x: x)
    amap = lambda x, r: r[0] + (cl(x) + 1) / 2 * (r[1] - r[0])
    before = list(u)
    a.last_action = c.vec("previous", size, s=(-1, 1))
    a.act(u)
    c.ensure("one command, to the controlled vehicle", len(log) == 1 and log[0][0] is mine)
    cmd = log[0][1]
    c.ensure("throttle", eq(cmd["acceleration"], amap(before[0], ra) if lon else 0))
    c.ensure("steering", eq(cmd["steering"], amap(before[-1], rs) if lat else 0))
    c.ensure("nothing else", sorted(cmd) == ["acceleration", "steering"])
    c.ensure("remembered", eq(list(a.last_action), [cl(x) for x in before]))
    c.ensure("the action given is left alone", eq(list(u), before))


@contract("C21.lmap", [UTIL + "lmap"])
def lmap(c):
    """The affine map taking one interval's ends to the other's."""
    from highway_env import utils
    x, y = pair(c, "x"), pair(c, "y")
    c.require(ne(x[0], x[1]))
    v = c.real("v", s=(-9, 9))
    c.ensure("affine", eq((utils.lmap(v, x, y) - y[0]) * (x[1] - x[0]), (v - x[0]) * (y[1] - y[0])))
    c.ensure("lower end", eq(utils.lmap(x[0], x, y), y[0]))
    c.ensure("upper end", eq(utils.lmap(x[1], x, y), y[1]))


@contract("C21.vehicle-class", [CA + ".vehicle_class", DA + ".vehicle_class", MA + ".vehicle_class", ACT + "action_factory"])
def vehicle_class(c):
    """The controlled vehicle's class fits the action type; the factory builds the configured type with its configuration."""
    from highway_env.envs.common import action as m
    V = vehicle_classes()
    env = bare_env(c)
    dyn = c.bool("dynamical")
    kind = c.choice("type", ["ContinuousAction", "DiscreteMetaAction", "MultiAgentAction", "Other"])
    cfg = {"type": kind, "dynamical": dyn, "longitudinal": True, "lateral": False, "clip": False}
    if kind == "MultiAgentAction":
        inner = c.choice("inner", ["ContinuousAction", "DiscreteMetaAction"])
        cfg = {"type": kind, "action_config": {"type": inner, "dynamical": dyn}}
    if kind == "Other":
        c.ensure("unknown types are refused", isinstance(c.raises(m.action_factory, env, cfg), ValueError))
        return
    a = m.action_factory(env, cfg)
    c.ensure("type", type(a).__name__ == kind)
    real = cfg["action_config"]["type"] if kind == "MultiAgentAction" else kind
    want = "MDPVehicle" if real == "DiscreteMetaAction" else "BicycleVehicle" if dyn else "Vehicle"
    c.ensure("class", a.vehicle_class is V[want])
    if kind != "MultiAgentAction":
        c.ensure("configuration passed on", a.lateral is False and a.longitudinal is True)


LABELS = {(True, True): ["LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"], (True, False): ["SLOWER", "IDLE", "FASTER"],
          (False, True): ["LANE_LEFT", "IDLE", "LANE_RIGHT"]}


@contract("C21.discrete", [DA, DA + ".act", DA + ".space"])
def discrete(c):
    """The labels are those of the enabled axes; action k sends the k-th label to the controlled vehicle."""
    from highway_env.envs.common.action import DiscreteMetaAction as D
    env, log = bare_env(c), []
    ego, other = Agent(log), Agent(log, "other")
    env.controlled_vehicles = [ego, other]
    lon, lat = axes(c)
    if not (lon or lat):
        c.ensure("at least one axis", isinstance(c.raises(D, env, longitudinal=lon, lateral=lat), ValueError))
        return
    a = D(env, longitudinal=lon, lateral=lat)
    labels = LABELS[lon, lat]
    c.ensure("size", a.space().n == len(labels))
    c.ensure("indices of the labels", a.actions_indexes == {l: k for k, l in enumerate(labels)})
    mine = ego
    if c.bool("assigned"):
        a.controlled_vehicle = mine = other
    k = c.choice("action", list(range(len(labels))))
    a.act(k)
    c.ensure("the label listed for the index, to the controlled vehicle, once", log == [(mine, labels[k])])
    ex = c.raises(a.act, len(labels))
    c.ensure("nothing sent for an index outside the space", ex is not None and len(log) == 1)


@contract("C21.multi", [MA + ".act"])
def multi(c):
    """Any number of agents: the i-th component of the joint action goes to the i-th agent's action type, once, in order."""
    from highway_env.envs.common.action import MultiAgentAction as M
    a = object.__new__(M)
    log = []

    class Type:
        def __init__(self, k):
            self.k = k
            self.controlled_vehicle = Agent([])
            self.controlled_vehicle.crashed = lt(0, T.uf("crashed", T.lift(k))) if c.sym else c.bool("crashed%d" % k)

        def act(self, x):
            log.append((self.k, x))
    a.agents_action_types, n = many(c, "agents", lambda k, tag: Type(k))
    if c.sym:
        from pyvc.runtime import Many
        joint = Many(n, lambda k: T.uf("component", T.lift(k)))
        c.loops["many"] = each(c, lambda: log.clear(), lambda k: [
            ("one component per iteration", len(log) == 1),
            ("to its own agent", len(log) == 1 and And(eq(log[0][0], k), eq(log[0][1], T.uf("component", k))))])
        a.act(joint)
        c.ensure("all agents are served once", c.loops["many"].over == 1)
        log.clear()
        c.ensure("lists are refused", c.raises(a.act, [0]) is not None and not log)
    else:
        joint = tuple(c.real("component%d" % k) for k in range(n))
        a.act(joint)
        c.ensure("one component per iteration", len(log) == n)
        c.ensure("lists are refused", c.raises(a.act, list(joint)) is not None and len(log) == n)
        c.ensure("to its own agent", And(True, *[And(log[k][0] == k, eq(log[k][1], joint[k])) for k in range(n)]))


@contract("C21.agents", [MA])
def agents(c):
    """Any number of agents: one action type of the configured kind per controlled vehicle, in order, acting on that vehicle."""
    from highway_env.envs.common.action import MultiAgentAction as M, DiscreteMetaAction as D
    env = bare_env(c)
    log = []
    env.controlled_vehicles, n = many(c, "vehicles", lambda k, tag: Agent(log, k))
    a = object.__new__(M)
    cfg = {"type": "DiscreteMetaAction", "lateral": False}
    if c.sym:
        def fresh():
            a.agents_action_types = []

        def check(k):
            ts = a.agents_action_types
            return [("one type per vehicle", len(ts) == 1 and type(ts[0]) is D and ts[0].lateral is False),
                    ("acting on it", len(ts) == 1 and ts[0].controlled_vehicle is env.controlled_vehicles.at(k))]
        c.loops["many"] = each(c, fresh, check)
        a.__init__(env, action_config=cfg)
        c.ensure("all vehicles are visited once", c.loops["many"].over == 1)
    else:
        a.__init__(env, action_config=cfg)
        ts = a.agents_action_types
        c.ensure("one type per vehicle", len(ts) == n and all(type(t) is D and t.lateral is False for t in ts))
        c.ensure("acting on it", n == 0 or all(t.controlled_vehicle is v for t, v in zip(ts, env.controlled_vehicles)))


@contract("C21.space", [MA + ".space"])
def space(c):
    """The joint space of any number of agents: one component per agent, in order, each the agent's own space."""
    import gym
    from highway_env.envs.common.action import MultiAgentAction as M
    a = object.__new__(M)
    if not c.sym:
        a.agents_action_types, n = many(c, "agents", lambda k, tag: type("Type", (), dict(space=lambda self, k=k: gym.spaces.Discrete(k + 1)))())
        c.ensure("one per agent, its own", type(a.space()) is gym.spaces.Tuple and [s.n for s in a.space().spaces] == list(range(1, n + 1)))
        return

    class Space:
        def __init__(self, k):
            self.k = k

    class Type:
        def __init__(self, k):
            self.k = k

        def space(self):
            return Space(self.k)
    made = []

    class Joint:
        def __init__(self, spaces):
            made.append(self)
            self.spaces = spaces
    c.patch(gym.spaces, "Tuple", Joint)
    c.note("gym's Tuple space has the given components, in order")
    a.agents_action_types, n = many(c, "agents", lambda k, tag: Type(k))
    k = c.int("k", 0)
    c.at(k)
    c.require(lt(k, n))
    got = a.space()
    c.ensure("a tuple", got in made and len(made) == 1)
    c.ensure("one per agent", eq(length(got.spaces), n))
    c.ensure("its own", type(got.spaces[k]) is Space and eq(got.spaces[k].k, k))


def length(xs):
    return xs.__symlen__() if hasattr(type(xs), "__symlen__") else len(xs)


@contract("C21.joint-space", [MA + ".space", MA, MA + ".act"], bounded="at most 4 agents")
def joint_space(c):
    """The joint space has one component per agent, each the agent's own space; the joint action must be a tuple."""
    from highway_env.envs.common.action import MultiAgentAction as M
    env, log = bare_env(c), []
    n = c.choice("agents", [0, 1, 2, 3, 4])
    vs = env.controlled_vehicles = [Agent(log, k) for k in range(n)]
    for v in vs[:2]:
        v.crashed = c.bool("crashed")
    a = M(env, action_config={"type": "DiscreteMetaAction"})
    sp = a.space()
    c.ensure("size", len(sp.spaces) == n and all(s.n == 5 for s in sp.spaces))
    joint = tuple(c.choice("component%d" % k, [0, 1, 2, 3, 4]) if k < 2 else k for k in range(n))
    a.act(joint)
    c.ensure("each agent its own component", log == [(vs[k], LABELS[True, True][joint[k]]) for k in range(n)])
    c.ensure("lists are refused", c.raises(a.act, list(joint)) is not None and len(log) == n)
