import types
from contracts._common import *

ENV = ABS + "AbstractEnv."
COPY = [ABS + "AbstractEnv.__deepcopy__"]


class Part:
    """Something an environment refers to; its copy is another thing."""

    def __init__(self, log, of=None):
        self.log, self.of = log, of

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        memo[id(self)] = new = Part(self.log, self)
        self.log.append(self)
        return new


@contract("C31.deepcopy", COPY)
def deep_copy(c):
    """Every part of the environment is copied once, and with the rest; the copy has no viewer; the original is untouched."""
    import copy
    log = []
    e = bare_env(c, c.choice("class", [None, "intersection"]) and env_class("IntersectionEnv"))
    parts = ["config", "road", "controlled_vehicles", "action_type", "observation_type", "np_random", "something_new"]
    for k in parts:
        setattr(e, k, Part(log))
    shared = e.extra = e.road        # referred to twice
    e.viewer = e.automatic_rendering_callback = None
    if c.bool("viewer"):
        e.viewer, e.automatic_rendering_callback = Part(log), Part(log)
    e.time = c.int("time", 0, s=(0, 9))
    back = e.parent = types.SimpleNamespace(env=e) if c.bool("refers to itself") else None
    before = dict(e.__dict__)
    viewer = [e.viewer, e.automatic_rendering_callback]
    new = copy.deepcopy(e)
    c.ensure("another environment of the same class", new is not e and type(new) is type(e))
    c.ensure("original untouched", set(e.__dict__) == set(before) and all(e.__dict__[k] is before[k] for k in before))
    c.ensure("same attributes", set(new.__dict__) == set(before))
    c.ensure("without viewer", new.viewer is None and new.automatic_rendering_callback is None)
    c.ensure("viewer not copied", not any(x in log for x in viewer if x is not None))
    c.ensure("every part copied", all(isinstance(getattr(new, k), Part) and getattr(new, k).of is before[k] for k in parts))
    c.ensure("what was one stays one", new.extra is new.road and len(log) == len(parts))
    c.ensure("plain values kept", And(eq(new.time, e.time), eq(new.steps, e.steps), eq(new.done, e.done)))
    c.ensure("references to the environment follow", back is None or new.parent is not back and new.parent.env is new)


def env_class(name):
    import highway_env.envs as m
    return getattr(m, name)


def vehicle_of(c, tag, cls=None, routes=False):
    v = bare(c, cls or c.choice("class" + tag, ["IDMVehicle", "ControlledVehicle"] + ([] if c.sym else ["Vehicle", "LinearVehicle"])), tag)
    if hasattr(v, "route"):
        v.target_lane_index, v.target_speed = ("a", "b", 0), c.real("target speed" + tag, s=(0, 30))
        v.route = c.choice("route" + tag, [None, 2])
        if v.route:
            v.route = many(c, "route" + tag, lambda k, t: ("from " + t, "to " + t, 3))[0] if routes and c.sym else [("a", "b", 0), ("b", "d", None)]
    if c.sym:
        v.lane_index = ("a", "b", 1)
    return v


def look(v):
    d = snap(v)
    return {k: list(x) if isinstance(x, list) else x for k, x in d.items()}


def kept(v, before, but=()):
    """v is as it was, up to the named attributes (references to other things are not followed)."""
    if set(v.__dict__) - set(but) != set(before) - set(but):
        return False
    out = []
    for k in set(before) - set(but):
        a, b = before[k], v.__dict__[k]
        out.append(a is b or a == b if k in ("route", "target_lane_index") else True if k in ("road", "lane", "history", "lane_index") else eq(a, b))
    return And(True, *out)


class Roster:
    """A list of any number of vehicles, one of them the ego; assignments are recorded."""

    def __init__(self, c, name, make):
        from pyvc.runtime import Many
        me, self.c, self.sets = self, c, []
        self.j = j = c.int(name + " ego", 0)
        self.n = c.int(name + " count", 1)
        c.require(lt(j, self.n))
        self.ego = make(j, name + " ego")
        self.made = made = [(j, self.ego)]
        self.second = []        # another agent: not the ego
        if c.bool("two agents"):
            i = c.int(name + " other agent", 0)
            c.require(And(lt(i, self.n), ne(i, j)))
            self.second = [make(i, name + " other agent", True)]
            made.append((i, self.second[0]))
        self.before = {id(v): look(v) for _, v in made}

        def at(k):
            k = T.lift(k)
            for i, v in made:
                if c.fork(eq(i, k)):
                    return v
            made.append((k, make(k, "%s@%d" % (name, len(made)))))
            me.before[id(made[-1][1])] = look(made[-1][1])
            return made[-1][1]

        class Logged(Many):
            def __setitem__(s, k, v):
                me.sets.append((T.lift(k), v))
        self.at, self.seq = at, Logged(self.n, at)

    def untouched(self, but=()):
        return And(not self.sets, *[kept(v, self.before[id(v)]) for _, v in self.made if v not in but])


def operation(c, run, check, cls=None, routes=False):
    """run(env) derives an environment; check(ego, class before, attributes before, vehicle after, its index) gives what holds
    of every vehicle of the result.  The original must not change."""
    from highway_env.envs.common import abstract as m
    orig = bare_env(c)
    if not c.sym:
        return concretely(c, orig, run, check, cls)
    twin = bare_env(c)
    own = Roster(c, "original", lambda k, tag, agent=False: vehicle_of(c, tag, cls or (agent and "IDMVehicle"), routes))
    new = Roster(c, "vehicles", lambda k, tag, agent=False: vehicle_of(c, tag, cls or (agent and "IDMVehicle"), routes))
    for env, r in ((orig, own), (twin, new)):
        env.road = types.SimpleNamespace(vehicles=r.seq)
        env.controlled_vehicles = [r.ego] + r.second
        for _, v in r.made:
            v.road = env.road
    asked = []
    c.patch(m, "copy", types.SimpleNamespace(deepcopy=lambda x, memo=None: (asked.append(x), twin)[1]))
    before = dict(orig.__dict__), dict(twin.__dict__)

    def after(k):
        v = new.at(k)
        now = [x for i, x in new.sets if i.m == T.lift(k).m][-1:] or [v]
        now = now[0]
        return [(l, b) for l, b in check(v is new.ego, type(v), new.before[id(v)], now, k)] + [
            ("the ego stays in place", v is not new.ego or now is v),
            ("others untouched", And(*[kept(w, new.before[id(w)]) for _, w in new.made if w is not v])),
            ("others not replaced", all(i.m == T.lift(k).m for i, _ in new.sets)),
            ("original untouched", own.untouched())]

    def fresh():
        new.sets.clear()
    c.loops["many"] = spec = each(c, fresh, after)
    out = run(orig)
    c.ensure("a copy, made of the original", out is twin and len(asked) == 1 and asked[0] is orig)
    c.ensure("original untouched", And(own.untouched(), orig.road.vehicles is own.seq and all(orig.__dict__[k] is v for k, v in before[0].items())))
    c.ensure("copy otherwise untouched", all(twin.__dict__[k] is v for k, v in before[1].items()))
    if twin.road.vehicles is new.seq:
        c.note("one by one")
        return out, spec.over == 1
    vs = twin.road.vehicles
    c.ensure("all vehicles", eq(vs.n, new.n) if hasattr(vs, "n") else False)
    k = c.int("any", 0)
    c.require(lt(k, new.n))
    v = new.at(k)
    for l, b in check(v is new.ego, type(v), new.before[id(v)], vs.at(k), k):
        c.ensure(l, b)
    return out, True


def concretely(c, orig, run, check, cls):
    """The same on real scenes, copied for good."""
    net = network(c, {("a", "b"): [along_x(c, "0"), along_x(c, "1")], ("b", "d"): [along_x(c, "2")]})
    n = c.int("count", 1, s=(1, 4))
    vs = [vehicle_of(c, str(k), cls) for k in range(n)]
    orig.road = road(c, net, list(vs))
    for v in vs:
        v.lane_index = ("a", "b", 1)
        v.lane = net.get_lane(v.lane_index)
        v.road = orig.road
    j = c.int("ego", 0, s=(0, 3)) % n
    orig.controlled_vehicles = [vs[j]] + [v for v in vs[:j] if c.bool("two agents")][:1]
    before = [look(v) for v in vs]
    env = dict(orig.__dict__)
    out = run(orig)
    c.ensure("a copy, made of the original", out is not orig and out.road is not orig.road and len(out.road.vehicles) == n and
             not any(a is b for a in vs for b in out.road.vehicles))
    c.ensure("original untouched", And(all(a is b for a, b in zip(orig.road.vehicles, vs)) and len(orig.road.vehicles) == n and
             all(orig.__dict__[k] is x for k, x in env.items()), *[kept(v, b) for v, b in zip(vs, before)]))
    c.ensure("the ego stays in place", out.vehicle is out.road.vehicles[j])
    c.ensure("same road", all(v.road is out.road for v in out.road.vehicles))
    for k, (v, b) in enumerate(zip(vs, before)):
        for l, x in check(k == j, type(v), b, out.road.vehicles[k], k):
            c.ensure(l, x)
    return out, True


@contract("C31.field", [ENV + "set_vehicle_field"] + COPY)
def field(c):
    """The field of every vehicle but the ego is set."""
    value = c.real("value", s=(0, 30))
    name = c.choice("field", ["target_speed", "extra"])
    operation(c, lambda e: e.set_vehicle_field((name, value)), lambda ego, cls, b, v, k: [
        ("the rest is kept", kept(v, b, () if ego else (name,))),
        ("set but for the ego", ego or name in v.__dict__ and eq(v.__dict__[name], value))], "IDMVehicle")


@contract("C31.change", [ENV + "change_vehicles", UTIL + "class_from_path"] + COPY)
def change(c):
    """Every vehicle but the ego is replaced by one of the requested class created from it (contract C31.create-from)."""
    from highway_env.vehicle import behavior as bm
    made = []

    class Created:
        def __init__(self, of):
            self.of = of
    if c.sym:
        c.patch(bm.IDMVehicle, "create_from", classmethod(lambda cls, vehicle: (made.append((cls, vehicle)), Created(vehicle))[1]))
    wanted = c.choice("class", ["IDMVehicle", "LinearVehicle"]) if not c.sym else "IDMVehicle"

    def check(ego, cls, b, v, k):
        if ego:
            return [("ego kept", kept(v, b))]
        if c.sym:
            return [("created from it", isinstance(v, Created) and any(a is bm.IDMVehicle and o is v.of for a, o in made)),
                    ("it was at this place", isinstance(v, Created) and v.of.__dict__ and And(eq(list(v.of.position), list(b["position"])), eq(v.of.speed, b["speed"])))]
        return [("of the class", type(v).__name__ == wanted),
                ("same state", And(eq(v.position, b["position"]), eq(v.heading, b["heading"]), eq(v.speed, b["speed"]))),
                ("same targets", And(eq(v.target_speed, b["target_speed"]), v.target_lane_index == b["target_lane_index"], v.route == b["route"]))]
    operation(c, lambda e: e.change_vehicles("highway_env.vehicle.behavior." + wanted), check, "MDPVehicle" if c.sym else "ControlledVehicle")


@contract("C31.preferred-lane", [ENV + "set_preferred_lane"] + COPY, max_paths=6000)
def preferred_lane(c):
    """Every autonomous vehicle plans to be on the given lane of each road of its route, and brakes as hard as needed."""
    from highway_env.vehicle.behavior import IDMVehicle
    lane = c.choice("lane", [None, 0, 1])

    def check(ego, cls, b, v, k):
        if lane is None or not issubclass(cls, IDMVehicle):
            return [("untouched", kept(v, b))]
        out = [("the rest is kept", kept(v, b, ("route", "LANE_CHANGE_MAX_BRAKING_IMPOSED"))),
               ("less cautious", eq(v.LANE_CHANGE_MAX_BRAKING_IMPOSED, 1000))]
        if c.sym and hasattr(b["route"], "at"):
            if c.fork(lt(0, b["route"].n)):
                was, now = b["route"].at(i), v.route.at(i)
                out.append(("its route on that lane", And(eq(v.route.n, b["route"].n), Or(le(b["route"].n, i), now == was[:2] + (lane,)))))
        elif b["route"]:
            out.append(("its route on that lane", v.route == [(f, t, lane) for f, t, _ in b["route"]]))
        return out
    if c.sym:
        i = c.int("any part of the route", 0)
        c.at(i)
    operation(c, lambda e: e.set_preferred_lane(lane), check, routes=True)


@contract("C31.route", [ENV + "set_route_at_intersection"] + COPY, max_paths=6000)
def route(c):
    """Every autonomous vehicle chooses its route at the next intersection (C07), nothing else changes."""
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.controller import ControlledVehicle
    to = c.choice("to", [0, 1, "random"])
    log = []
    real = ControlledVehicle.set_route_at_intersection
    c.patch(IDMVehicle, "set_route_at_intersection", lambda v, _to: (log.append((v, _to)), None if c.sym else real(v, _to))[1])

    def check(ego, cls, b, v, k):
        idm = issubclass(cls, IDMVehicle)
        out = [("otherwise kept", kept(v, b, ("route",) if idm else ())),
               ("asked to choose", [x for a, x in log if c.sym or a is v] == ([to] if idm else []) and (not c.sym or all(a is v for a, _ in log)))]
        if c.sym:
            log.clear()
        return out
    operation(c, lambda e: e.set_route_at_intersection(to), check)


@contract("C31.randomize", [ENV + "randomize_behaviour"] + COPY, max_paths=6000)
def randomize(c):
    """Every autonomous vehicle draws its behaviour anew; nothing else changes."""
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
    log = []
    for k in (IDMVehicle, LinearVehicle):
        c.patch(k, "randomize_behavior", lambda v, real=k.randomize_behavior: (log.append(v), None if c.sym else real(v))[1])

    def check(ego, cls, b, v, k):
        idm = issubclass(cls, IDMVehicle)
        if c.sym:
            n = [a is v for a in log]
            log.clear()
            return [("asked once", n == ([True] if idm else [])), ("otherwise kept", kept(v, b))]
        linear = ("ACCELERATION_PARAMETERS", "STEERING_PARAMETERS")
        return [("otherwise kept", kept(v, b, linear if issubclass(cls, LinearVehicle) else ())),
                ("asked", any(a is v for a in log) == idm)]
    operation(c, lambda e: e.randomize_behaviour(), check)


@contract("C31.method", [ENV + "call_vehicle_method"] + COPY, max_paths=6000)
def method(c):
    """Every vehicle having the method is replaced by what it returns when called with the arguments."""
    from highway_env.vehicle.behavior import IDMVehicle
    log = []
    for k in vehicle_classes().values():
        if k.__name__ == "IDMVehicle":
            c.patch(k, "some_method", lambda v, a, b: (log.append((v, a, b)), v)[1]) if hasattr(k, "some_method") else setattr(k, "some_method", lambda v, a, b: (log.append((v, a, b)), v)[1])

    def check(ego, cls, b, v, k):
        if not c.sym:
            return [("kept", kept(v, b)), ("called", not issubclass(cls, IDMVehicle) or any(a is v and x == 1 and y == "z" for a, x, y in log))]
        got = [(a is v, x, y) for a, x, y in log]
        log.clear()
        return [("called with the arguments", got == ([(True, 1, "z")] if issubclass(cls, IDMVehicle) else [])), ("kept", kept(v, b))]
    try:
        operation(c, lambda e: e.call_vehicle_method(("some_method", (1, "z"))), check)
    finally:
        if hasattr(IDMVehicle, "some_method"):
            del IDMVehicle.some_method


@contract("C31.simplify", [ENV + "simplify", ABS + "AbstractEnv.vehicle"] + COPY)
def simplify(c):
    """The ego, first, and the vehicles of the copy within its perception distance (C07: close_vehicles_to)."""
    from highway_env.envs.common import abstract as m
    orig = bare_env(c)
    if not c.sym:
        net = network(c, {("a", "b"): [along_x(c)]})
        vs = [bare(c, "Vehicle", str(k), pos=c.vec("p%d" % k, 2, s=(-300, 300))) for k in range(c.int("count", 1, s=(1, 4)))]
        orig.road = road(c, net, list(vs))
        for v in vs:
            v.road, v.lane_index, v.lane = orig.road, ("a", "b", 0), net.get_lane(("a", "b", 0))
        j = c.int("ego", 0, s=(0, 3)) % len(vs)
        orig.controlled_vehicles = [vs[j]]
        before = [look(v) for v in vs]
        out = orig.simplify()
        c.ensure("original untouched", And(list(orig.road.vehicles) == vs, orig.controlled_vehicles == [vs[j]], *[kept(v, b) for v, b in zip(vs, before)]))
        got = out.road.vehicles
        c.ensure("the ego first", out is not orig and got[0] is out.vehicle and out.vehicle is not vs[j])
        near = [v for k, v in enumerate(vs) if k != j and norm2(v.position - vs[j].position) < orig.PERCEPTION_DISTANCE]
        key = lambda v: tuple(v.position)
        c.ensure("and the near ones", sorted(key(v) for v in got[1:]) == sorted(key(v) for v in near) and not any(v in vs for v in got))
        return
    twin = bare_env(c)
    ego, near = object(), [object() for _ in range(c.choice("near", [0, 2]))]
    asked = []

    class Near:
        vehicles = [near, ego]

        def close_vehicles_to(self, vehicle, distance, count=None, see_behind=True, sort=True):
            c.ensure("on the copy", self is twin.road)
            asked.append((vehicle, distance, count, see_behind))
            return list(near)
    twin.road, twin.controlled_vehicles = Near(), [ego]
    orig.road, orig.controlled_vehicles = Near(), [object()]
    was = orig.road, orig.road.vehicles, orig.controlled_vehicles
    c.patch(m, "copy", types.SimpleNamespace(deepcopy=lambda x, memo=None: (asked.append(x), twin)[1]))
    out = orig.simplify()
    c.ensure("a copy, made of the original", out is twin and asked[0] is orig and len(asked) == 2)
    c.ensure("all around the ego", asked[1][0] is ego and asked[1][2] is None and asked[1][3] is True)
    c.ensure("within the perception distance", eq(asked[1][1], orig.PERCEPTION_DISTANCE))
    c.ensure("the ego first, and the near ones", len(out.road.vehicles) == 1 + len(near) and all(a is b for a, b in zip(out.road.vehicles, [ego] + near)))
    c.ensure("original untouched", orig.road is was[0] and orig.road.vehicles is was[1] and orig.controlled_vehicles is was[2])


@contract("C31.finite-mdp", [ENV + "to_finite_mdp"])
def to_finite_mdp(c):
    """The finite MDP of this environment at its decision period (C26)."""
    from highway_env.envs.common import abstract as m
    e = bare_env(c, policy_frequency=c.pos("policy frequency", s=(1, 15)))
    asked = []
    c.patch(m, "finite_mdp", lambda env, time_quantization=1., horizon=10.: (asked.append((env, time_quantization, horizon)), "mdp")[1])
    c.ensure("its finite MDP", e.to_finite_mdp() == "mdp" and asked[0][0] is e and And(eq(asked[0][1] * e.config["policy_frequency"], 1), eq(asked[0][2], 10)))


@contract("C31.create-from", [VEH + "Vehicle.create_from", CTRL + "ControlledVehicle.create_from", BEH + "IDMVehicle.create_from",
                              VEH + "Vehicle.__init__", CTRL + "ControlledVehicle.__init__", BEH + "IDMVehicle.__init__", CTRL + "MDPVehicle.__init__",
                              BEH + "LinearVehicle.__init__"])
def create_from(c):
    """The new vehicle is at the same position - in an array of its own -, heading and speed, on the same road, with the same
    targets and route; the source is untouched."""
    names = ["Vehicle", "ControlledVehicle", "IDMVehicle", "LinearVehicle", "MDPVehicle"]
    cls = vehicle_classes()[c.choice("class", names)]
    net = AnyNetwork(c, ("a", "b", 0), abstract_lane(c))
    r = road(c, net)
    src = bare(c, c.choice("source", names[1:]), road=r)
    src.target_lane_index = c.choice("target", [("a", "b", 1), ("p", "q", 0)])
    src.target_speed = c.choice("still", [0, 1])
    src.target_speed = c.real("target speed", s=(0, 30)) if src.target_speed else 0
    src.route = c.choice("route", [None, 1])
    src.route = src.route and [("a", "b", 0), ("b", "d", None)]
    before = look(src)
    v = cls.create_from(src)
    c.ensure("new, of the class", v is not src and type(v) is cls and v.road is r)
    c.ensure("source untouched", kept(src, before))
    c.ensure("same state", And(eq(list(v.position), list(src.position)), eq(v.heading, src.heading), eq(v.speed, src.speed)))
    c.ensure("position of its own", v.position is not src.position)
    v.position[0] += 1
    c.ensure("moving it leaves the source", eq(list(src.position), list(before["position"])))
    if hasattr(v, "route"):
        c.ensure("same target lane and route", v.target_lane_index == before["target_lane_index"] and v.route == before["route"])
        if cls.__name__ != "MDPVehicle":
            c.ensure("same target speed", eq(v.target_speed, before["target_speed"]))
