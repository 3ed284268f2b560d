from contracts._common import *
from contracts.c27 import env_of, IS

MO = OBS + "MultiAgentObservation"
MW = ABS + "MultiAgentWrapper"


class Agent:
    def __init__(self, k):
        self.k = k


def position(c, n):
    """A position among the n agents: what is proved of it holds of all."""
    k = c.int("any agent", 0)
    if c.sym:
        c.at(k)
        c.require(lt(k, n))
        return [k]
    return list(range(n))


@contract("C38.step", [IS + ".step"])
def step(c):
    """Any number of agents: the step's own observation, reward and end; then the traffic is cleared and renewed; the info gains
    each agent's own reward and flag after the step, in the agents' order, and keeps the rest."""
    from highway_env.envs.common.abstract import AbstractEnv
    e = env_of(c, "IntersectionEnv", None)
    e.controlled_vehicles, n = many(c, "agents", lambda k, tag: Agent(k), 1, (1, 5))
    e.config["spawn_probability"] = p = c.real("probability", 0, 1, s=(0, 1))
    ks = position(c, n)
    obs, reward, done, speed = object(), c.real("r", s=(-2, 2)), c.bool("end"), object()
    action, log = c.choice("action", [0, (1, 2)]), []

    def base(self, a):
        log.append(("step", a))
        return obs, reward, done, {"speed": speed, "action": a}
    c.patch(AbstractEnv, "step", base)
    e._clear_vehicles = lambda: log.append(("clear",))

    def spawn(*a, **k):
        log.append(("spawn", a, k))
    e._spawn_vehicle = spawn

    def own(what):
        def f(action, vehicle=None):
            if what == "flag":
                action, vehicle = None, action
            else:
                log.append(("reward for", action))
            return per(c, what + (" after the step" if log and log[0][0] == "step" else " before"), vehicle.k, s=(-2, 2))
        return f
    e._agent_reward, e._agent_is_terminal = own("reward"), own("flag")
    got = e.step(action)
    c.ensure("the step's own results", len(got) == 4 and got[0] is obs and got[2] is done)
    c.ensure("the step's own reward", eq(got[1], reward))
    info = got[3]
    c.ensure("step, then clearing, then spawning, once each", [x[0] for x in log if x[0] in ("step", "clear", "spawn")] == ["step", "clear", "spawn"] and
             log[0] == ("step", action))
    given = [x for x in log if x[0] == "spawn"][0]
    c.ensure("with the configured probability", given[1] == () and list(given[2]) == ["spawn_probability"] and given[2]["spawn_probability"] is p)
    c.ensure("of this action", all(x[1] == action for x in log if x[0] == "reward for"))
    c.ensure("info kept and completed", set(info) == {"speed", "action", "agents_rewards", "agents_dones"} and info["speed"] is speed and info["action"] == action)
    for name, what in (("agents_rewards", "reward"), ("agents_dones", "flag")):
        c.ensure("one per agent: " + name, isinstance(info[name], tuple) and eq(size(c, info[name]), n))
        for k in ks:
            c.ensure("each agent's own: " + name, eq(info[name][k], per(c, what + " after the step", k)))


def size(c, x):
    return x.n if c.sym and hasattr(x, "__many__") else len(x)


@contract("C38.agent", [IS + "._agent_reward", IS + "._agent_is_terminal", IS + ".has_arrived"])
def agent(c):
    """An agent's own reward and flag depend on no other agent: whoever else is on the road and however they fare, they are the
    same."""
    from contracts.c28 import ego_of, truth
    v, w = ego_of(c, tag="v"), ego_of(c, tag="w")
    v.speed_index = c.int("index", 0, s=(0, 2))
    v.lane_index = c.choice("on", [("il1", "o1", 0), ("ir0", "il1", 0)])
    v.lane = abstract_lane(c)
    e = env_of(c, "IntersectionEnv", None, normalize_reward=c.bool("normalised"))
    e.steps, e.config["duration"] = c.int("steps", 0, s=(0, 30)), c.int("duration", 0, s=(0, 30))
    w.lane_index, w.lane, w.speed_index = ("ir1", "il2", 0), abstract_lane(c, "w"), 0
    if c.sym:       # nothing of the other one may be looked at: its attributes are gone
        class Nobody:
            pass
        w = Nobody()
    out = []
    for egos in ([v], [v, w], [w, v]):
        e.controlled_vehicles = egos
        out.append((e._agent_reward(c.choice("action", [0]), v), truth(c, e._agent_is_terminal(v))))
    for r, d in out[1:]:
        c.ensure("reward", eq(r, out[0][0]))
        c.ensure("flag", Iff(d, out[0][1]))


@contract("C38.wrapper", [MW + ".step"])
def wrapper(c):
    """The wrapper reports the agents' rewards and flags instead of the shared ones, and everything else as it is."""
    import types
    import gym
    from highway_env.envs.common.abstract import MultiAgentWrapper
    obs, rewards, dones = object(), ("r0", "r1"), ("d0", "d1")
    info = {"agents_rewards": rewards, "agents_dones": dones, "speed": 3}
    acts = []

    class Env(gym.Env):
        def step(self, action):
            acts.append(action)
            return obs, c.real("shared", s=(-1, 1)), c.bool("end"), info
    env = Env()
    action = object()
    got = MultiAgentWrapper(env).step(action)
    c.ensure("one step of the environment", acts == [action])
    c.ensure("observation", got[0] is obs)
    c.ensure("rewards", got[1] is rewards)
    c.ensure("flags", got[2] is dones)
    c.ensure("info", got[3] is info and info == {"agents_rewards": rewards, "agents_dones": dones, "speed": 3})


class Sight:
    """The observation of one agent: a value and a space belonging to the vehicle observed from."""
    observer_vehicle = None

    def observe(self):
        return ("seen from", self.observer_vehicle.k)

    def space(self):
        return ("space of", self.observer_vehicle.k)


@contract("C38.observations", [MO + ".__init__"])
def observers(c):
    """Any number of controlled vehicles: one observation of the configured kind for each, in their order, observing from it."""
    import types
    import highway_env.envs.common.observation as m
    vs, n = many(c, "agents", lambda k, tag: Agent(k), 0, (0, 5))
    env = types.SimpleNamespace(controlled_vehicles=vs, vehicle=Agent(-1))
    ks = position(c, n) if not c.sym else None
    kind, asked = {"type": "Kinematics"}, []

    def factory(env_, config):
        asked.append((env_, config))
        return Sight()
    c.patch(m, "observation_factory", factory)
    o = object.__new__(m.MultiAgentObservation)
    if c.sym:
        k = c.int("any agent", 0)
        c.at(k)

        def init():
            o.agents_observation_types = []     # those made from here on
            del asked[:]

        def check(j):
            new = o.agents_observation_types
            ok = len(new) == 1 and isinstance(new[0], Sight) and isinstance(new[0].observer_vehicle, Agent) and asked == [(env, kind)]
            return [("one observation of the configured kind, from this vehicle", And(ok, eq(new[0].observer_vehicle.k, j)) if ok else False)]
        loop = c.loops["many"] = each(c, init, check)
        o.__init__(env, kind)
        if hasattr(o.agents_observation_types, "__many__"):
            c.require(lt(k, n))
            c.ensure("one per vehicle", eq(o.agents_observation_types.n, n))
            c.ensure("from this vehicle", eq(o.agents_observation_types[k].observer_vehicle.k, k))
        else:
            c.ensure("over all vehicles, once", loop.over == 1)
    else:
        o.__init__(env, kind)
        c.ensure("one per vehicle", len(o.agents_observation_types) == n)
        for k in ks:
            c.ensure("from this vehicle", o.agents_observation_types[k].observer_vehicle is vs[k])
        c.ensure("of the configured kind", all(x == (env, kind) for x in asked) and len(asked) == n)
    c.ensure("of this environment", o.env is env)


@contract("C38.observe", [MO + ".observe", MO + ".space"])
def observe(c):
    """Any number of agents: the observation is the tuple of the agents' observations, in order; the space that of their spaces."""
    import highway_env.envs.common.observation as m
    o = object.__new__(m.MultiAgentObservation)

    def make(k, tag):
        s = Sight()
        s.observer_vehicle = Agent(k)
        return s
    o.agents_observation_types, n = many(c, "agents", make, 0, (0, 5))
    ks = position(c, n)
    c.patch(m.spaces, "Tuple", lambda xs: ("tuple", xs))
    got, space = o.observe(), o.space()
    c.ensure("a tuple, one per agent", isinstance(got, tuple) and eq(size(c, got), n))
    c.ensure("a tuple of spaces, one per agent", space[0] == "tuple" and eq(size(c, space[1]), n))
    for k in ks:
        c.ensure("the agent's own observation", And(got[k][0] == "seen from", eq(got[k][1], k)))
        c.ensure("the agent's own space", And(space[1][k][0] == "space of", eq(space[1][k][1], k)))


IDS = ["highway-v0", "merge-v0", "roundabout-v0", "intersection-v0", "intersection-multi-agent-v0", "intersection-multi-agent-v1",
       "parking-v0", "parking-ActionRepeat-v0", "summon-v0", "summon-ActionRepeat-v0", "two-way-v0", "lane-keeping-v0"]


@contract("C38.registered", [IS + ".step", MW + ".step", MO + ".observe"], concrete_only=True, samples=24)
def registered(c):
    """Every registered environment can be created, reset and stepped; with several agents, the tuples have one entry each."""
    import gym
    import highway_env
    from contracts.c35 import parameters, restore
    before = parameters()
    c.undo.append(lambda: restore(before))
    name = c.choice("id", IDS)
    env = gym.make(name)
    multi = name.startswith("intersection-multi")
    k = c.choice("agents", [1, 2, 3, 4]) if multi else 1
    if multi:
        env.unwrapped.config["controlled_vehicles"] = k
    env.seed(c.choice("seed", list(range(1000))))
    obs = env.reset()
    env.action_space.seed(0)
    for _ in range(2):
        obs, reward, done, info = env.step(env.action_space.sample() if not multi else tuple(1 for _ in range(k)))
    if multi:
        base = env.unwrapped
        c.ensure("one observation per agent", isinstance(obs, tuple) and len(obs) == k)
        c.ensure("one reward and flag per agent", len(info["agents_rewards"]) == k == len(info["agents_dones"]))
        for i, v in enumerate(base.controlled_vehicles):
            c.ensure("the agent's own reward", eq(info["agents_rewards"][i], base._agent_reward(1, v)))
            c.ensure("the agent's own flag", bool(info["agents_dones"][i]) == bool(base._agent_is_terminal(v)))
        if name.endswith("v1"):
            c.ensure("tuples reported", reward == info["agents_rewards"] and done == info["agents_dones"])
        else:
            c.ensure("shared values reported", not isinstance(reward, tuple) and not isinstance(done, tuple))
