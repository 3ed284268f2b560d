from contracts._common import *
from contracts.c27 import env_of
from contracts.c28 import truth, found
from contracts.c23 import features_of

PK = ENVS + "parking_env:ParkingEnv"
KG = OBS + "KinematicsGoalObservation"
W = [1, .3, 0, 0, .02, .02]


def weights(c):
    return [T.num(1), T.num(3) / 10, T.ZERO, T.ZERO, T.num(2) / 100, T.num(2) / 100] if c.sym else W


def weighted(c, a, g):
    return sum(w * absv(x - y) for w, x, y in zip(weights(c), a, g))


@contract("C29.reward", [PK + ".compute_reward", PK + "._is_success"])
def reward(c):
    """Minus the square root of the weighted L1 distance: never positive, zero exactly at the goal, never more further away;
    success exactly above -0.12."""
    e = env_of(c, "ParkingEnv", None)
    a, g = c.vec("achieved", 6, s=(-1, 1)), c.vec("goal", 6, s=(-1, 1))
    if not c.sym and c.bool("near"):
        a = g + (a - g) * c.real("factor", 0, .02)
    got = e.compute_reward(a, g, {})
    d = weighted(c, a, g)
    c.ensure("never positive", le(got, 0))
    c.ensure("the square root of the distance", eq(got * got, d))
    c.ensure("zero exactly at the goal", Iff(eq(got, 0), And(*[eq(a[i], g[i]) for i in (0, 1, 4, 5)])) if c.sym else
             Implies(And(*[bool(a[i] == g[i]) for i in (0, 1, 4, 5)]), eq(got, 0)))
    i = c.choice("component", list(range(6)))
    f = a.copy()
    f[i] = g[i] + (a[i] - g[i]) * (1 + c.real("further", 0, s=(0, 2)))
    c.ensure("never more further away", le(e.compute_reward(f, g, {}), got))
    c.ensure("success", Iff(truth(c, e._is_success(a, g)), lt(d, T.num(12) / 100 * T.num(12) / 100 if c.sym else .0144)))


class Obs:
    def __init__(self, value):
        self.value = value

    def observe(self):
        return self.value


def agents(c, e, success):
    """Any number of agents' observations (or the single one's); success(k): what _is_success says of the k-th."""
    single = c.bool("single agent")
    mk = lambda k, tag: {"achieved_goal": ("a", k), "desired_goal": ("g", k)}
    obs, n = many(c, "agents", mk, 1, (1, 3))
    if single:
        obs, n = mk(0, ""), 1
    elif not c.sym:
        obs = tuple(obs)
    e.observation_type = Obs(obs)
    return obs, n


@contract("C29.terminal", [PK + "._is_terminal"])
def terminal(c):
    """Any number of agents: ends exactly on time-out, crash of any controlled vehicle, or success of all agents."""
    import types
    e = env_of(c, "ParkingEnv", None)
    e.steps = c.int("steps", 0, s=(0, 120))
    e.config["duration"] = dur = c.int("duration", 0, s=(0, 120))
    e.controlled_vehicles, m = many(c, "vehicles", lambda k, tag: types.SimpleNamespace(k=k, crashed=lt(0, per(c, "crash", k, s=(-3, 1)))), 1, (1, 3))
    obs, n = agents(c, e, None)
    fits = []

    def success(achieved_goal, desired_goal):
        fits.append(And(achieved_goal[0] == "a", desired_goal[0] == "g", eq(achieved_goal[1], desired_goal[1])))
        return lt(0, per(c, "success", achieved_goal[1], s=(-1, 3)))
    e._is_success = success
    if not c.sym:
        for v in e.controlled_vehicles:
            v.crashed = bool(v.crashed)
        has = [bool(success(("a", k), ("g", k))) for k in range(n)]
        e._is_success = lambda achieved_goal, desired_goal: has[achieved_goal[1]]
        c.ensure("ends", bool(e._is_terminal()) == (any(v.crashed for v in e.controlled_vehicles) or all(has) or e.steps >= dur))
        return
    i, j = c.int("any vehicle", 0), c.int("any agent", 0)
    c.at(i), c.at(j)
    c.require(And(lt(i, m), lt(j, n)))
    crash, win = (lambda k: lt(0, per(c, "crash", k))), (lambda k: lt(0, per(c, "success", k)))
    got = c.fork(truth(c, e._is_terminal()))
    late = le(dur, e.steps)
    c.ensure("each agent's own observation", And(*fits))
    if got:
        c.ensure("only then", Or(late, *[And(crash(k), le(0, k), lt(k, m)) for k in found(c)], win(j)))
    else:
        c.ensure("when any crashed or it is late", And(Not(crash(i)), Not(late)))
        c.ensure("when all succeed", Or(Not(win(j)), *[And(Not(win(k)), le(0, k), lt(k, n)) for k in found(c)]))


@contract("C29.shared", [PK + "._reward"])
def shared(c):
    """Any number of agents: the reward is the sum of the agents' own."""
    e = env_of(c, "ParkingEnv", None)
    obs, n = agents(c, e, None)
    fits = []

    def own(achieved_goal, desired_goal, info, p=.5):
        fits.append(And(achieved_goal[0] == "a", desired_goal[0] == "g", eq(achieved_goal[1], desired_goal[1]), eq(p, .5)))
        return per(c, "own reward", achieved_goal[1])
    e.compute_reward = own
    got = e._reward(c.choice("action", [0, 1]))
    c.ensure("each agent's own observation", And(*fits) if fits else False)
    if isinstance(n, int):
        c.ensure("sum", eq(got, sum(per(c, "own reward", k) for k in range(n))))
    else:
        c.ensure("sum", eq(got, obs.comp(lambda o: per(c, "own reward", o["achieved_goal"][1]), []).sum()))


@contract("C29.observation", [KG + ".observe", KG])
def observation(c):
    """The observation is the observer's and the goal's features over the scales; zeros without an observer."""
    from highway_env.envs.common.observation import KinematicsGoalObservation as O
    fs = c.choice("features", [["x", "y", "vx", "vy", "cos_h", "sin_h"], ["y", "presence", "sin_h"]])
    e = bare_env(c)
    ego = bare(c, c.choice("class", ["Vehicle", "BicycleVehicle"]), "ego")
    e.controlled_vehicles = [ego]
    e.road = road(c, None)
    e.goal = obstacle(c, "goal", "Landmark")
    scales = [c.pos("scale%d" % i, s=(.5, 100)) for i in range(len(fs))]
    o = O(e, scales=c.arr(scales), features=fs)
    if c.bool("no observer"):
        e.controlled_vehicles = []
        z = o.observe()
        c.ensure("zeros", all(z[k].shape == (len(fs),) and not z[k].any() for k in ("observation", "achieved_goal", "desired_goal")))
        return
    if c.bool("assigned"):
        other = bare(c, "Vehicle", "other")
        o.observer_vehicle = ego = other
    got = o.observe()
    mine = features_of(c, ego)
    g = {"presence": 1, "x": e.goal.position[0], "y": e.goal.position[1], "vx": 0, "vy": 0,
         "cos_h": cos(e.goal.heading), "sin_h": sin(e.goal.heading)}
    for i, f in enumerate(fs):
        c.ensure("observation", And(eq(got["observation"][i] * scales[i], mine[f]), eq(got["achieved_goal"][i] * scales[i], mine[f])))
        c.ensure("desired goal", eq(got["desired_goal"][i] * scales[i], g[f]))


@contract("C29.step", [PK + ".step"])
def step(c):
    """The step reports success of each agent's own observation, and passes on what it observed, earned and ended with."""
    from highway_env.envs.common.abstract import AbstractEnv
    from highway_env.envs.common.observation import MultiAgentObservation, KinematicsGoalObservation
    e = env_of(c, "ParkingEnv", None)
    multi = c.bool("several agents")
    e.observation_type = object.__new__(MultiAgentObservation if multi else KinematicsGoalObservation)
    mk = lambda k, tag="": {"achieved_goal": ("a", k), "desired_goal": ("g", k)}
    if multi:
        obs, n = many(c, "agents", mk, 0, (0, 3))
        obs = obs if c.sym else tuple(obs)
    else:
        obs = mk(0)
    log = []

    def parent(self, action):
        log.append(action)
        return obs, 7, False, {"speed": 3}
    c.patch(AbstractEnv, "step", parent)
    e._is_success = lambda achieved_goal, desired_goal: ("ok", achieved_goal, desired_goal)
    o, r, d, info = e.step("the action")
    c.ensure("passed on", o is obs and r == 7 and d is False and info["speed"] == 3 and log == ["the action"])
    c.ensure("success reported", "is_success" in info)
    own = lambda s, k: len(s) == 3 and s[0] == "ok" and s[1][0] == "a" and s[2][0] == "g" and And(eq(s[1][1], k), eq(s[2][1], k))
    if not multi:
        c.ensure("success of its own observation", own(info["is_success"], 0))
    elif c.sym:
        k = c.int("any agent", 0)
        c.require(lt(k, n))
        s = info["is_success"]
        c.ensure("one flag per agent", eq(s.n, n))
        c.ensure("success of its own observation", own(s.at(k), k))
    else:
        c.ensure("one flag per agent", len(info["is_success"]) == n)
        c.ensure("success of its own observation", And(True, *[own(s, k) for k, s in enumerate(info["is_success"])]))
