from contracts._common import *

ENV = "highway_env/envs/"
SCENES = {"HighwayEnv": ("highway_env.py", ["_create_road", "_create_vehicles"]), "MergeEnv": ("merge_env.py", ["_make_road", "_make_vehicles"]),
          "TwoWayEnv": ("two_way_env.py", ["_make_road", "_make_vehicles"]), "RoundaboutEnv": ("roundabout_env.py", ["_make_road", "_make_vehicles"]),
          "IntersectionEnv": ("intersection_env.py", ["_make_road", "_make_vehicles"]),
          "ParkingEnv": ("parking_env.py", ["_create_road", "_create_vehicles"]), "SummonEnv": ("summon_env.py", ["_create_road", "_create_vehicles"]),
          "LaneKeepingEnv": ("lane_keeping_env.py", ["_make_road", "_make_vehicles"])}


def seeded_only(c):
    """From here on, any draw from a process-wide generator (numpy.random, random) is a violation."""
    if c.sym:
        from pyvc import proxy
        rng = Rng(c, "global")

        def used(name):
            def draw(*a, **k):
                c.ensure("drawn from the environment's generator, not " + name, False)
                return getattr(rng, name.split(".")[-1])(*a, **k)
            return draw
        c.patch(proxy, "GLOBAL_RANDOM", [used])
        return
    import random, sys
    import numpy as np
    own = lambda: (sys._getframe(2).f_globals.get("__name__") or "").startswith("highway_env")

    def watch(module, name):
        real = getattr(module, name)

        def f(*a, **k):
            if own():
                c.ensure("drawn from the environment's generator, not " + name, False)
            return real(*a, **k)
        c.patch(module, name, f)
    for name in dir(np.random):
        if callable(getattr(np.random, name)) and not name.startswith("_") and name not in ("test", "Generator", "BitGenerator", "SeedSequence", "RandomState"):
            watch(np.random, name)
    for name in dir(random):
        if callable(getattr(random, name)) and name[0].islower():
            watch(random, name)


def classes_of_vehicles():
    """The vehicle classes and the values of their parameters."""
    import highway_env.vehicle.kinematics as k, highway_env.vehicle.controller as ct, highway_env.vehicle.behavior as b
    import highway_env.vehicle.dynamics as d
    out = {}
    for m in (k, ct, b, d):
        for n, x in vars(m).items():
            if isinstance(x, type):
                out[n] = x
    return out


def parameters():
    return {(n, a): (v if not hasattr(v, "copy") else v.copy()) for n, k in classes_of_vehicles().items() for a, v in vars(k).items() if a.isupper()}


def restore(before):
    for (n, a), v in before.items():
        setattr(classes_of_vehicles()[n], a, v)


class Bag:
    """The road's vehicles: any number of vehicles, whatever is added and removed."""

    def __new__(cls, c, road):
        def make(k, tag):
            v = bare(c, "Vehicle", tag)
            v.road = road
            return v
        vs, _ = many(c, "present", make)
        if c.sym:
            vs.append = vs.remove = lambda v: None
        return vs


APART = ("RoundaboutEnv", "IntersectionEnv")       # with known findings: the obligations on the classes in a contract of their own


def scene_of(name, shared=False):
    file, methods = SCENES[name]
    apart = name in APART

    @contract("C35." + ("shared-" if shared else "scene-") + name[:-3].lower(), [ENV + file + ":" + name + "." + m for m in methods])
    def scene(c):
        """Building the scene draws from the environment's generator alone, which the road it makes uses too; the parameters of
        the vehicle classes, shared with every other environment, are left alone."""
        import highway_env.envs as envs
        from highway_env.road.road import RoadNetwork
        from highway_env.road.regulation import RegulatedRoad
        from highway_env.vehicle.controller import MDPVehicle
        from highway_env.vehicle.kinematics import Vehicle
        from highway_env.vehicle.dynamics import BicycleVehicle
        cls = getattr(envs, name)
        env = object.__new__(cls)
        env.config = env.default_config()
        rng = env.np_random = Rng(c)
        env.road, env.controlled_vehicles = None, []

        class ActionType:
            vehicle_class = Vehicle if name in ("ParkingEnv", "SummonEnv") else BicycleVehicle if name == "LaneKeepingEnv" else MDPVehicle
        env.action_type = ActionType()
        for key in ("vehicles_count", "controlled_vehicles", "initial_vehicle_count"):
            if env.config.get(key):
                env.config[key] = c.int(key, 1 if name == "ParkingEnv" and not c.sym else 0, s=(1, 3))
        if c.sym:
            lane = abstract_lane(c)
            lane.speed_limit = c.pos("limit")
            # the closest lane is some lane; every lane is any lane; simulating the road has contracts of its own
            c.patch(RoadNetwork, "get_closest_lane_index", lambda self, position, heading=None: ("n1", "n2", 0))
            c.patch(RoadNetwork, "get_lane", lambda self, index: lane)
            for method in ("act", "step"):
                c.patch(RegulatedRoad, method, lambda self, *a, **k: None)
            c.loops["range"] = c.loops["many"] = each(c, lambda: None, lambda k: [])
            making = [m for m in methods if "road" in m][0]
            make = getattr(env, making)

            def then(*a, **k):
                make(*a, **k)
                env.road.vehicles = Bag(c, env.road)
            setattr(env, making, then)
            if name == "IntersectionEnv":
                env._spawn_vehicle = lambda longitudinal=0, position_deviation=1., speed_deviation=1., spawn_probability=.6, go_straight=False: None
        before = parameters()
        c.undo.append(lambda: restore(before))
        seeded_only(c)
        env._reset()
        c.ensure("generator kept", env.np_random is rng)
        c.ensure("road uses the environment's generator", env.road.np_random is rng)
        after = parameters()
        if shared or not apart:
            c.ensure("vehicle classes untouched", set(before) == set(after))
            for key, v in before.items():
                c.ensure("vehicle class untouched: " + ".".join(key), eq(v, after[key]))


for _name in SCENES:
    scene_of(_name)
for _name in APART:
    scene_of(_name, shared=True)


@contract("C35.spawn", [ENV + "intersection_env.py:IntersectionEnv._spawn_vehicle"])
def spawn(c):
    """The traffic added to an intersection at any time draws from the environment's generator alone."""
    from highway_env.envs import IntersectionEnv
    env = object.__new__(IntersectionEnv)
    env.config = env.default_config()
    rng = env.np_random = Rng(c)
    if c.sym:
        lane = abstract_lane(c)
        net = AnyNetwork(c, ("n1", "n2", 0), lane)
        env.road = road(c, net, rng=rng)
        env.road.vehicles = Bag(c, env.road)
        c.loops["many"] = each(c, lambda: None, lambda k: [])
        from highway_env.vehicle.controller import ControlledVehicle
        c.patch(ControlledVehicle, "plan_route_to", lambda self, destination: self)
    else:
        env._make_road()
    before = parameters()
    c.undo.append(lambda: restore(before))
    seeded_only(c)
    env._spawn_vehicle(c.real("s", s=(0, 80)), c.real("position deviation", 0, s=(0, 2)), c.real("speed deviation", 0, s=(0, 2)),
                       spawn_probability=c.real("probability", 0, 1, s=(0, 1)), go_straight=c.bool("straight on"))
    c.ensure("generator kept", env.np_random is rng and env.road.np_random is rng)
    for key, v in parameters().items():
        c.ensure("vehicle class untouched: " + ".".join(key), eq(v, before[key]))


@contract("C35.route-order", ["highway_env/road/road.py:RoadNetwork.bfs_paths", "highway_env/road/road.py:RoadNetwork.shortest_path"],
          concrete_only=True, samples=200)
def route_order(c):
    """The route found does not depend on how the names of the nodes hash (which changes from process to process)."""
    from highway_env.road.road import RoadNetwork

    def named(hashes):
        class Name(str):
            def __hash__(self):
                return hashes[str(self)]
            __eq__ = str.__eq__
        return Name
    n = c.int("nodes", 3, 6, s=(3, 6))
    letters = "abcdef"[:n]
    edges = [(a, b) for a in letters for b in letters if a != b and c.real("edge", 0, 1, s=(0, 1)) < .6]
    found = []
    for _ in range(2):
        Name = named({a: int(c.int("hash", 0, 1000, s=(0, 1000))) for a in letters})
        net = RoadNetwork()
        for a, b in edges:
            net.add_lane(Name(a), Name(b), None)
        try:
            found.append([str(x) for x in net.shortest_path(Name("a"), Name(letters[-1]))])
        except KeyError:
            found.append("no such node")
    c.ensure("the same route", found[0] == found[1])


@contract("C35.follow", ["highway_env/vehicle/controller.py:ControlledVehicle.follow_road", "highway_env/road/road.py:RoadNetwork.next_lane"])
def follow(c):
    """The next road, when no route tells, is drawn from the generator of the vehicle's road."""
    from highway_env.road.road import RoadNetwork
    v = bare(c, c.choice("class", ["ControlledVehicle", "IDMVehicle", "MDPVehicle", "LinearVehicle"]))
    net = RoadNetwork()
    lane = abstract_lane(c)
    onward = c.choice("next roads", [[], ["x"], ["x", "y", "z"]])
    for to in onward:
        for _ in range(c.choice("lanes", [1, 2])):
            net.add_lane("b", to, lane)
    net.add_lane("a", "b", lane)
    rng = Rng(c)
    v.road = road(c, net, rng=rng)
    v.target_lane_index = ("a", "b", 0)
    v.route = c.choice("route", [None, [("a", "b", 0), ("b", "y", None)], [("q", "r", 0)]][:None if len(onward) > 1 else 1])
    seeded_only(c)
    v.follow_road()
    c.ensure("generator kept", v.road.np_random is rng)


@contract("C35.behaviour", ["highway_env/vehicle/behavior.py:LinearVehicle.randomize_behavior", "highway_env/vehicle/behavior.py:IDMVehicle.randomize_behavior",
                            "highway_env/vehicle/controller.py:ControlledVehicle.set_route_at_intersection"])
def behaviour(c):
    """Random behaviours and random routes are drawn from the generator of the vehicle's road and given to the vehicle alone."""
    v = bare(c, c.choice("class", ["IDMVehicle", "LinearVehicle", "AggressiveVehicle", "DefensiveVehicle"]))
    rng = Rng(c)
    v.road = road(c, None, rng=rng)
    before = parameters()
    c.undo.append(lambda: restore(before))
    seeded_only(c)
    if c.bool("route"):
        routes = [[("a", "b", k)] for k in range(c.choice("routes", [0, 1, 3]))]
        v.route = was = [("o", "p", 0)]
        v.get_routes_at_intersection = lambda: routes
        v.set_route_at_intersection("random")
        c.ensure("one of the routes", v.route is was if not routes else any(v.route is r for r in routes))
    else:
        v.randomize_behavior()
    c.ensure("generator kept", v.road.np_random is rng)
    for key, value in parameters().items():
        c.ensure("vehicle class untouched: " + ".".join(key), eq(value, before[key]))


@contract("C35.random-vehicle", ["highway_env/vehicle/kinematics.py:Vehicle.create_random"])
def random_vehicle(c):
    """A random vehicle of any class is drawn from the generator of its road."""
    from contracts.c14 import ManyLanes
    from contracts.c30 import classes
    cls = classes(c)
    lane, n = abstract_lane(c), c.int("lanes", 1, s=(1, 4))
    net = AnyNetwork(c, ("a", "b", 0), lane)
    net.graph = {"a": {"b": ManyLanes(n) if c.sym else [lane] * n}}
    rng = Rng(c)
    vs, m = many(c, "vehicles", lambda k, tag: bare(c, "Vehicle", tag, pos=c.arr([per(c, "x of", k, s=(0, 90)), per(c, "y of", k, s=(-5, 9))])))
    r = road(c, net, vs, rng=rng)
    if not c.sym:
        for w in vs:
            w.lane = lane
    seeded_only(c)
    cls.create_random(r, speed=c.pos("v", s=(5, 35)) if c.bool("speed given") else None, lane_id=0 if c.bool("lane given") else None,
                      spacing=c.pos("spacing", s=(.2, 3)))
    c.ensure("generator kept", r.np_random is rng)


@contract("C35.noise", [ENV + "lane_keeping_env.py:LaneKeepingEnv.state", ENV + "lane_keeping_env.py:LaneKeepingEnv.derivative"])
def noise(c):
    """The noise of the observed state and derivative is within its bounds and drawn from the environment's generator."""
    from highway_env.envs import LaneKeepingEnv
    env = object.__new__(LaneKeepingEnv)
    env.config = {"state_noise": c.real("state noise", 0, s=(0, 1)), "derivative_noise": c.real("derivative noise", 0, s=(0, 1))}
    env.np_random = rng = Rng(c)
    values = c.vec("value", 6)

    class Car:
        state = derivative = values.reshape((6, 1))
    env.controlled_vehicles = [Car()]
    seeded_only(c)
    for what, bound in (("state", "state_noise"), ("derivative", "derivative_noise")):
        got = getattr(env, what)
        c.ensure(what + " shape", got.shape == (4, 1))
        for row, k in enumerate((1, 2, 4, 5)):
            c.ensure(what + " within its noise", le(absv(got[row, 0] - values[k]), env.config[bound]))
    c.ensure("generator kept", env.np_random is rng)


@contract("C35.seed", ["highway_env/envs/common/abstract.py:AbstractEnv.seed", "highway_env/envs/common/abstract.py:AbstractEnv.__init__",
                       "highway_env/envs/common/abstract.py:AbstractEnv.reset", "highway_env/envs/common/abstract.py:AbstractEnv.step"])
def seed(c):
    """Seeding makes the generator of that seed; construction seeds once, resetting and stepping never."""
    import highway_env.envs.common.abstract as m
    asked = []

    class Generator:
        pass

    class Seeding:
        @staticmethod
        def np_random(seed=None):
            asked.append((seed, Generator()))
            return asked[-1][1], seed
    c.patch(m, "seeding", Seeding)
    seen = []

    class Type:
        def observe(self):
            seen.append(env.np_random)
            return "observation"

        def space(self):
            return "space"

    class Env(m.AbstractEnv):
        def define_spaces(self):
            self.observation_type = self.action_type = Type()

        def _reset(self):
            seen.append(self.np_random)

        def _simulate(self, action=None):
            seen.append(self.np_random)

        def _reward(self, action):
            return 0

        def _is_terminal(self):
            return False

        def _cost(self, action):
            return 0
    env = object.__new__(Env)
    env.__init__()
    c.ensure("seeded once", len(asked) >= 1 and env.np_random is asked[-1][1])
    made, now = len(asked), env.np_random
    env.reset()
    c.ensure("resetting does not seed", len(asked) == made and env.np_random is now)
    env.road, env.controlled_vehicles = object(), [bare(c, "Vehicle")]
    env.step(1)
    c.ensure("stepping does not seed", len(asked) == made and env.np_random is now and all(x is now for x in seen))
    s = c.int("seed", 0, s=(0, 1000))
    out = env.seed(s)
    c.ensure("the generator of the seed", len(asked) == made + 1 and env.np_random is asked[-1][1] and eq(asked[-1][0], s))
    c.ensure("the seed used", len(out) == 1 and eq(out[0], s))


@contract("C35.shuffle", [OBS + "KinematicObservation.observe"])
def shuffle(c):
    """A shuffled observation draws its order from the environment's generator; a sorted one draws nothing."""
    from contracts.c23 import observation
    shuffled = c.bool("shuffled")
    K, e, ego = observation(c, features=["x", "vy"], vehicles_count=3, order="shuffled" if shuffled else "sorted", normalize=False, absolute=True)
    e.np_random = rng = Rng(c)
    near = [bare(c, "Vehicle", "n%d" % k) for k in range(c.choice("near", [0, 1, 2]))]
    e.road.close_vehicles_to = lambda v, distance, count=None, see_behind=True: near
    e.road.np_random = Rng(c, "road's")
    seeded_only(c)
    obs = K.observe()
    c.ensure("generator kept", e.np_random is rng)
    c.ensure("draws only to shuffle", shuffled or not rng.log)
    row = lambda k: list(obs[k])
    want = [[v.position[0], v.speed * sin(v.heading)] for v in near] + [[0, 0]] * (2 - len(near))
    c.ensure("observer first", eq(row(0), [ego.position[0], ego.speed * sin(ego.heading)]))
    same = And(eq(row(1), want[0]), eq(row(2), want[1]))
    c.ensure("the rows of the others", same if not shuffled else Or(same, And(eq(row(1), want[1]), eq(row(2), want[0]))))


@contract("C35.twins", ["highway_env/envs/common/abstract.py:AbstractEnv"] + [ENV + f + ":" + k for k, (f, ms) in SCENES.items()],
          concrete_only=True, samples=40)
def twins(c):
    """Two environments of equal configuration and seed, given equal actions, go through equal states, whatever else draws
    random numbers meanwhile."""
    import random
    import numpy as np
    import highway_env.envs as envs
    before = parameters()
    name = c.choice("environment", sorted(SCENES) + ["MultiAgentIntersectionEnv"])
    small = {"vehicles_count": c.int("vehicles", 0, s=(0, 8)), "initial_vehicle_count": c.int("initial", 0, s=(0, 5))}
    other = c.choice("other vehicles", ["highway_env.vehicle.behavior.IDMVehicle", "highway_env.vehicle.behavior.LinearVehicle"])
    order = c.choice("order", ["sorted", "shuffled"])
    seeds, steps = c.int("seed", 0, s=(0, 10 ** 6)), c.int("steps", 0, s=(0, 4))
    actions = [c.real("action", s=(-1, 1)) for _ in range(steps)]
    picks = [c.int("pick", 0, s=(0, 2)) for _ in range(steps)]

    def run():
        restore(before)     # the leak between environments of different kinds is the subject of C35.shared
        env = getattr(envs, name)()
        for k, v in small.items():
            if k in env.config:
                env.config[k] = v
        if "other_vehicles_type" in env.config and name != "ParkingEnv":
            env.config["other_vehicles_type"] = other
        if env.config["observation"].get("type") == "Kinematics":
            env.config["observation"]["order"] = order
        env.seed(int(seeds))
        log = [env.reset()]
        state = lambda: [(type(v).__name__, list(map(float, v.position)), float(v.heading), float(v.speed), getattr(v, "route", None),
                          getattr(v, "timer", None), v.crashed) for v in env.road.vehicles]
        log.append(state())
        for a, k in zip(actions, picks):
            if hasattr(env.action_space, "n"):
                a = int(k)
            elif hasattr(env.action_space, "spaces"):
                a = tuple(int(k) for _ in env.action_space.spaces)
            else:
                a = np.array([a] * env.action_space.shape[0])
                a = a[:, None] if name == "LaneKeepingEnv" else a
            log.append(env.step(a))
            log.append(state())
        return log

    def plain(x):
        if isinstance(x, dict):
            return sorted((str(k), plain(v)) for k, v in x.items())
        if isinstance(x, (list, tuple)):
            return [plain(v) for v in x]
        if isinstance(x, np.ndarray):
            return plain(x.tolist())
        return repr(x)
    try:
        first = plain(run())
        np.random.seed(int(seeds) % 1000 + 1)
        random.seed(int(seeds) + 1)
        second = plain(run())
    finally:
        restore(before)
    c.ensure("equal histories", first == second)


PROCESS = """
import sys, os, json, warnings
warnings.filterwarnings("ignore")
os.environ["SDL_VIDEODRIVER"] = "dummy"
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import numpy as np
import highway_env.envs as envs
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.kinematics import Vehicle
from highway_env.vehicle.controller import ControlledVehicle
seed = int(sys.argv[2])
log = []
for name in sys.argv[3].split(","):
    env = getattr(envs, name)()
    env.seed(seed)
    env.reset()
    for _ in range(2):
        a = env.action_space
        a = 1 if hasattr(a, "n") else tuple(1 for _ in a.spaces) if hasattr(a, "spaces") else np.zeros(a.shape)
        env.step(a[:, None] if name == "LaneKeepingEnv" else a)
    log.append([name] + [(type(v).__name__, list(map(float, v.position)), float(v.speed), str(getattr(v, "route", None)))
                         for v in env.road.vehicles])
rng = np.random.RandomState(seed)
net = RoadNetwork()
nodes = ["n%d" % k for k in range(6)]
for a in nodes:
    for b in nodes:
        if a != b and rng.rand() < .6:
            net.add_lane(a, b, StraightLane(100*rng.rand(2), 100*rng.rand(2)))
road = Road(net, np_random=rng)
for k in range(20):
    v = Vehicle.create_random(road, speed=20., spacing=.1)
    log.append([list(v.position), v.lane_index])
    u = ControlledVehicle(road, list(v.position), v.heading, 20.)
    log.append([str(net.next_lane(u.lane_index, position=u.position, np_random=rng)), str(u.lane_index)])
    u.plan_route_to(nodes[k % 6])
    log.append(str(u.route))
    log.append([str(r) for r in u.get_routes_at_intersection()])
    u.set_route_at_intersection("random")
    log.append(str(u.route))
    log.append([net.graph[a].keys() and str(list(net.graph[a])) for a in net.graph])
print(json.dumps(log))
"""


@contract("C35.processes", ["highway_env/road/road.py:RoadNetwork.next_lane", "highway_env/vehicle/kinematics.py:Vehicle.create_random",
                            "highway_env/vehicle/controller.py:ControlledVehicle.get_routes_at_intersection",
                            "highway_env/vehicle/controller.py:ControlledVehicle.set_route_at_intersection"],
          concrete_only=True, samples=1, seconds=60)
def processes(c):
    """Equal seeds give equal scenes, routes and steps in processes that hash strings differently."""
    import os, subprocess, sys
    import highway_env
    root = os.path.dirname(os.path.dirname(os.path.abspath(highway_env.__file__)))
    names = ",".join(sorted(SCENES) + ["MultiAgentIntersectionEnv"])
    seed = c.int("seed", 0, s=(0, 10 ** 6))
    runs = [subprocess.Popen([sys.executable, "-W", "ignore", "-c", PROCESS, root, str(int(seed)), names], text=True,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=h)) for h in ("1", "2", "3")]
    outs = []
    for p in runs:
        out, err = p.communicate()
        if p.returncode:
            raise Unsupported("the scenes could not be run in another process: " + err[-300:])
        outs.append(out.splitlines()[-1])
    c.ensure("the same in every process", outs[0] == outs[1] == outs[2])
