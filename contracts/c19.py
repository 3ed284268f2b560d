import numpy as np

from contracts._common import *
from pyvc.runtime import Many

RR = REG + "RegulatedRoad."


def rroad(c, vehicles=(), net=None):
    from highway_env.road.regulation import RegulatedRoad
    r = road(c, net, tuple(vehicles), cls=RegulatedRoad)
    r.steps = 0
    return r


class Lane:
    def __init__(self, priority, speed_limit=20):
        self.priority, self.speed_limit = priority, speed_limit


@contract("C19.priority", [RR + "respect_priorities", VEH + "Vehicle.front_distance_to"])
def priority(c):
    """The vehicle on the lane of lower priority yields; on equal priorities the one that sees the other further ahead; ties:
    the second."""
    from highway_env.road.regulation import RegulatedRoad
    v, w = bare(c, "IDMVehicle", "1"), bare(c, "IDMVehicle", "2")
    v.lane, w.lane = Lane(c.int("p1", s=(0, 3))), Lane(c.int("p2", s=(0, 3)))
    got = RegulatedRoad.respect_priorities(v, w)
    c.ensure("one of the two", got is v or got is w)
    ahead = lambda a, b: dot([cos(a.heading), sin(a.heading)], b.position - a.position)
    first = Or(lt(v.lane.priority, w.lane.priority),
               And(eq(v.lane.priority, w.lane.priority), lt(ahead(w, v), ahead(v, w))))
    c.ensure("who yields", Iff(got is v, first))


def cand(c, tag, kinds, states=("never", "released", "yielding")):
    k = c.choice("kind" + tag, kinds)
    v = bare(c, k, tag, heading=0, speed=0)
    v.lane = Lane(0, c.real("limit" + tag, s=(5, 30)))
    if k != "Vehicle":
        v.target_speed = c.real("target" + tag, s=(0, 30))
    st = c.choice("state" + tag, list(states)) if k == "IDMVehicle" else "never"
    if st != "never":
        v.is_yielding = st == "yielding"
        v.yield_timer = c.int("timer" + tag, 0, s=(0, 6))
        if st == "yielding":
            v.color = (0, 0, 0)
    return v


def rules(c, n, kinds, *states):
    from highway_env.road.regulation import RegulatedRoad
    vs = [cand(c, str(i), kinds, *states) for i in range(n)]
    r = rroad(c, vs)
    r.YIELD_DURATION = c.real("duration", 0, s=(0, 3))
    conf, yld, asked = {}, {}, []

    def possible(a, b):
        i, j = vs.index(a), vs.index(b)
        asked.append((i, j))
        if (i, j) not in conf:
            conf[i, j] = c.bool("conflict%d%d" % (i, j))
            yld[i, j] = c.choice("yields%d%d" % (i, j), [i, j]) if conf[i, j] else None
        return True if conf[i, j] else None
    r.is_conflict_possible = possible
    r.respect_priorities = lambda a, b: vs[yld[vs.index(a), vs.index(b)]]
    before = [dict(v.__dict__) for v in vs]
    r.enforce_road_rules()
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    c.ensure("every pair is examined once", sorted(asked) == pairs)
    for i, v in enumerate(vs):
        b = before[i]
        made = any(yld.get(p) == i for p in pairs) and type(v).__name__ in ("IDMVehicle", "ControlledVehicle")
        waiting = b.get("is_yielding", False)
        if made:
            c.ensure("the yielding vehicle is stopped", And(eq(v.target_speed, 0), v.is_yielding is True, eq(v.yield_timer, 0)))
        elif waiting:
            done = le(r.YIELD_DURATION * RegulatedRoad.REGULATION_FREQUENCY, b["yield_timer"])
            if c.fork(done):
                c.ensure("released at its lane's speed limit", And(eq(v.target_speed, v.lane.speed_limit), v.is_yielding is False,
                                                                    not hasattr(v, "color")))
            else:
                c.ensure("keeps waiting", And(eq(v.target_speed, b["target_speed"]), v.is_yielding is True, eq(v.yield_timer, b["yield_timer"] + 1)))
        else:
            c.ensure("others are untouched", unchanged(v, b))
    if c.bool("check the rest"):
        for v, b in zip(vs, before):
            c.ensure("nothing but the target speed and the yielding state changes",
                     unchanged(v, b, ("target_speed", "is_yielding", "yield_timer", "color")))


@contract("C19.rules", [RR + "enforce_road_rules"], max_paths=4000, seconds=60)
def rules2(c):
    """Each pair: the yielding rule-following vehicle gets target speed 0 until its timer expires, then its lane's speed limit;
    learning agents, plain vehicles and vehicles without conflict are left alone (two vehicles)."""
    rules(c, 2, ["Vehicle", "MDPVehicle", "IDMVehicle", "ControlledVehicle"])


@contract("C19.rules-three", [RR + "enforce_road_rules"], max_paths=6000, seconds=60, bounded=True)
def rules3(c):
    """The same for three vehicles, every pair examined."""
    rules(c, 3, ["IDMVehicle"], ("never", "yielding"))


class Enforced:
    """Enforcement among any number of vehicles, seen from an arbitrary one of them (w, the W-th) and an arbitrary pair (A, B)
    whose conflict it has to yield in."""

    def __init__(self, c, r):
        self.c, self.r = c, r
        self.n, self.W, self.A, self.B = (c.int(x, 0) for x in ("vehicles", "W", "A", "B"))
        self.w = cand(c, "", ["Vehicle", "MDPVehicle", "IDMVehicle", "ControlledVehicle"])
        self.rules = type(self.w).__name__ in ("IDMVehicle", "ControlledVehicle")
        c.assume(And(lt(self.W, self.n), lt(self.A, self.B), lt(self.B, self.n)))
        self.places, self.asked, self.mode = [(self.w, self.W)], None, 0
        pre = dict(self.w.__dict__)
        post = dict(pre)
        if pre.get("is_yielding", False):
            if c.fork(le(r.YIELD_DURATION * r.REGULATION_FREQUENCY, pre["yield_timer"])):
                post.update(target_speed=self.w.lane.speed_limit, is_yielding=False)
                post.pop("color")
            else:
                post["yield_timer"] = pre["yield_timer"] + 1
        stopped = dict(post, color=r.YIELDING_COLOR, target_speed=0, is_yielding=True, yield_timer=0)
        self.want = [pre, post, stopped]

    def at(self, k):
        c = self.c
        if c.fork(eq(k, self.W)):
            return self.w
        for v, i in self.places:
            if T.lift(i).m == T.lift(k).m:
                return v
        v = bare(c, c.choice("kind", ["Vehicle", "MDPVehicle", "IDMVehicle"]), str(len(self.places)), heading=0, speed=0)
        v.lane, v.color = Lane(0, 20), (0, 0, 0)
        if type(v).__name__ == "IDMVehicle":
            v.is_yielding, v.yield_timer, v.target_speed = c.bool("is yielding"), 0, 0
        self.places.append((v, k))
        return v

    def place(self, v):
        return [k for x, k in self.places if x is v][0]

    def conflict(self, i, j):
        return eq(T.uf("conflict", i, j, isint=True), 1)

    def first(self, i, j):
        return eq(T.uf("the first yields", i, j, isint=True), 1)

    def yields(self, i, j):
        """w yields in the conflict of the i-th and j-th vehicle."""
        return And(self.rules, self.conflict(i, j), Or(And(eq(i, self.W), self.first(i, j)), And(eq(j, self.W), Not(self.first(i, j)))))

    def possible(self, v1, v2):
        i, j = self.asked = self.place(v1), self.place(v2)
        self.c.ensure("pairs are examined in order", lt(i, j))
        return True if self.c.fork(self.conflict(i, j)) else None

    def priorities(self, v1, v2):
        i, j = self.place(v1), self.place(v2)
        self.c.ensure("asked who yields in this conflict", self.asked == (i, j))
        out = v1 if self.c.fork(self.first(i, j)) else v2
        if out is self.w and self.rules:
            self.mode, self.evidence = 2, (i, j)
        return out

    def set(self, mode):
        self.mode = mode
        self.w.__dict__.clear()
        self.w.__dict__.update(self.want[mode])

    def state(self):
        d, want = self.w.__dict__, self.want[self.mode]
        if set(d) != set(want):
            return False
        return And(*[d[k] is want[k] or (not isinstance(d[k], np.ndarray) and bool_eq(d[k], want[k])) for k in want])

    def contract(self, c, seq, active, count):
        if seq.name == "many":
            def havoc(c, seq, seen):
                self.set(1 if c.fork(lt(self.W, seq.k)) else 0)
                return {}

            def inv(c, seq, state, seen):
                done = c.fork(lt(self.W, seq.k))
                self.mode = 1 if done else 0
                return [("those seen are released or waiting on", self.state())]
            return LoopSpec((), havoc, inv)
        if len(active) > 1:
            raise Unsupported("loops nested deeper")
        outer = active[0].seq if active else None
        here = lambda a, b: Or(lt(a, outer.k), And(eq(a, outer.k), lt(b, seq.k))) if outer is not None else lt(a, seq.k)

        def havoc(c, seq, seen):
            self.set(2 if c.bool("stopped already") else 1)
            if self.mode == 2:
                a, b = self.evidence = c.int("a", 0), c.int("b", 0)
                c.assume(And(lt(a, b), lt(b, self.n), self.yields(a, b)))
            return {}

        def inv(c, seq, state, seen):
            out = [("stopped or as before", self.state()),
                   ("stopped by any conflict so far", Implies(And(here(self.A, self.B), self.yields(self.A, self.B)), self.mode == 2))]
            if self.mode == 2:
                a, b = self.evidence
                out.append(("stopped only in a conflict", And(lt(a, b), lt(b, self.n), self.yields(a, b))))
            return out
        return LoopSpec((), havoc, inv)


def bool_eq(a, b):
    return eq(a, b) if isinstance(a, R) or isinstance(b, R) else bool(a == b)


@contract("C19.rules-any", [RR + "enforce_road_rules"], max_paths=4000, seconds=90, samples=1)
def rules_any(c):
    """Among any number of vehicles: a rule-following vehicle is stopped exactly if it yields in some conflict of two of them;
    otherwise one that waited goes on waiting, or is released at its lane's speed limit once its timer has expired; the others
    are left alone."""
    if not c.sym:
        return
    from highway_env.road.regulation import RegulatedRoad
    r = rroad(c)
    r.YIELD_DURATION = c.real("duration", 0, s=(0, 3))
    g = Enforced(c, r)
    r.vehicles = Many(g.n, g.at)
    r.is_conflict_possible, r.respect_priorities = g.possible, g.priorities
    c.loops["many"] = c.loops["range"] = g.contract
    r.enforce_road_rules()
    c.ensure("nothing else about it changes", g.state())
    c.ensure("stopped if it yields in a conflict", Implies(g.yields(g.A, g.B), g.mode == 2))
    if g.mode == 2:
        a, b = g.evidence
        c.ensure("stopped only if it yields in a conflict", And(lt(a, b), lt(b, g.n), g.yields(a, b)))


@contract("C19.pace", [RR + "step"], samples=60)
def pace(c):
    """The rules are enforced REGULATION_FREQUENCY times a second (every 1/dt/frequency steps, or every step if steps take
    longer), before the vehicles move."""
    from highway_env.road.regulation import RegulatedRoad
    r = rroad(c)
    log = []

    class V:
        def step(self, dt):
            log.append("step")
    r.vehicles = []
    every = c.choice("steps per enforcement", [1, 2, 3, 5, 7, 8, .5, .75])
    dt = 1 / (every * RegulatedRoad.REGULATION_FREQUENCY)
    if int(1 / dt / RegulatedRoad.REGULATION_FREQUENCY) != every:
        every = max(int(1 / dt / RegulatedRoad.REGULATION_FREQUENCY), 1)
    k = c.int("steps so far", 0, s=(0, 30))
    r.steps = k
    r.enforce_road_rules = lambda: log.append("rules")
    r.step(dt)
    c.ensure("counts its steps", eq(r.steps, k + 1))
    due = eq((k + 1) - every * floor((k + 1) / T.num(every) if c.sym else (k + 1) / every), 0)
    c.ensure("enforced when due", Iff(log == ["rules"], due))
    c.ensure("at most once", log in ([], ["rules"]))


@contract("C19.conflict", [RR + "is_conflict_possible"], max_paths=3000, seconds=60)
def conflict(c):
    """A conflict is reported only if the predicted footprints (1.5 x length, 0.9 x width) intersect at one of the predicted
    times (0.25 s to 2.75 s), and always when they do with centres within one vehicle length."""
    import numpy as np
    from highway_env.road.regulation import RegulatedRoad
    from highway_env import utils
    v, w = bare(c, "IDMVehicle", "1", heading=0, speed=0), bare(c, "IDMVehicle", "2", heading=0, speed=0)
    sized(c, v, "1"), sized(c, w, "2")
    near, hit, calls = {}, {}, []
    ts = [.25 * k for k in range(1, 12)]
    kmax = 2            # the loop body is the same at each time: the conflict can appear at any one of them
    when = c.choice("when", list(range(11)))
    far = c.arr([1000.0, 0.0])
    p1 = [c.arr([0.0, 0.0]) for k in range(11)]
    p2 = [far for k in range(11)]
    p1[when], p2[when] = c.vec("p1", 2, s=(-3, 3)), c.vec("p2", 2, s=(-3, 3))
    h1, h2 = [0.0] * 11, [0.0] * 11
    h1[when], h2[when] = c.real("h1", s=(-3, 3)), c.real("h2", s=(-3, 3))
    asked = []

    def predicted(ps, hs):
        def f(times):
            asked.append([float(x) if not isinstance(x, R) else x for x in times])
            return tuple(ps), tuple(hs)
        return f
    v.predict_trajectory_constant_speed, w.predict_trajectory_constant_speed = predicted(p1, h1), predicted(p2, h2)
    r1 = (p1[when], 1.5 * v.LENGTH, 0.9 * v.WIDTH, h1[when])
    r2 = (p2[when], 1.5 * w.LENGTH, 0.9 * w.WIDTH, h2[when])
    if c.sym:
        answer = c.symbool("footprints intersect")
        c.patch(utils, "rotated_rectangles_intersect", lambda a, b: And(answer, eq(a[0], r1[0]), eq(a[1], r1[1]), eq(a[2], r1[2]), eq(a[3], r1[3]),
                                                                       eq(b[0], r2[0]), eq(b[1], r2[1]), eq(b[2], r2[2]), eq(b[3], r2[3])))
        c.note("rotated_rectangles_intersect stands for its contract (C12): an arbitrary answer for these two footprints")
    else:
        answer = utils.rotated_rectangles_intersect(r1, r2)
    got = RegulatedRoad.is_conflict_possible(v, w)
    close = le(norm2(p2[when] - p1[when]), v.LENGTH)
    c.ensure("reported exactly when the footprints intersect nearby", Iff(bool(got), And(answer, close)))
    c.ensure("times", And(*[And(len(t) == 11, *[eq(a, b) for a, b in zip(t, ts)]) for t in asked]))


@contract("C19.prediction", [CTRL + "ControlledVehicle.predict_trajectory_constant_speed", ROAD + "RoadNetwork.position_heading_along_route"],
          max_paths=2000, seconds=60)
def prediction(c):
    """The predicted states lie on the centre lines of the lanes of the planned route (of the current lane without one), at the
    vehicle's longitudinal position plus speed times the time, carried over to the next lane at each lane's end."""
    v = bare(c, "IDMVehicle", heading=0)
    n = c.choice("lanes in route", [0, 1, 2, 3])
    lanes = [abstract_lane(c, str(i)) for i in range(max(n, 1))]
    ends = "abcdef"
    for l in lanes:
        c.require(lt(0, l.length))
    net = network(c, {(ends[i], ends[i + 1]): [l] for i, l in enumerate(lanes)})
    v.lane, v.lane_index = lanes[0], ("a", "b", 0)
    v.route = [(ends[i], ends[i + 1], 0 if i == 0 else c.choice("lane id %d" % i, [None, 0])) for i in range(n)] or c.choice("no route", [None, []])
    v.road = road(c, net)
    t = c.real("t", 0, s=(0, 3))
    before = None if v.route is None else list(v.route)
    asked_before(c, [v], lambda: v.predict_trajectory_constant_speed(c.arr([t, 0.0])))
    ps, hs = v.predict_trajectory_constant_speed(c.arr([t, 0.0]))
    s = lanes[0].local_coordinates(v.position)[0] + v.speed * t
    i = 0
    while i < len(lanes) - 1 and c.fork(lt(lanes[i].length, s)):
        s = s - lanes[i].length
        i += 1
    c.ensure("position", eq(ps[0], lanes[i].position(s, 0)))
    c.ensure("heading", eq(hs[0], lanes[i].heading_at(s)))
    c.ensure("one state per time", len(ps) == 2 and len(hs) == 2)
    c.ensure("the route is unchanged", v.route == before or (not v.route and not before))


class Route(Refuses):
    """The lane indices of a route from the k-th on; there are n of them in all."""

    def __init__(self, n, k):
        self.n, self.k = n, k

    def __symlen__(self):
        return self.n - self.k

    def __bool__(self):
        return bool(lt(self.k, self.n))

    def __getitem__(self, i):
        if isinstance(i, slice) and i.stop is None and i.step is None and isinstance(i.start, int) and i.start >= 0:
            return Route(self.n, vmin(self.n, self.k + i.start))
        if isinstance(i, int) and i >= 0:
            return ("lane", self.k + i)
        return self._refuse()

    def __len__(self):
        return self._refuse()


@contract("C19.along-route", [ROAD + "RoadNetwork.position_heading_along_route"], samples=60)
def along_route(c):
    """On a route of any length: the position and heading are those of the lane that the distance falls on (the last lane
    beyond the end of the route), at the distance minus the lengths of the lanes before."""
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    if c.sym:
        n, s = c.int("lanes", 1), c.real("s")
        start = lambda k: T.uf("start", T.lift(k))
        c.assume(eq(start(0), 0))
        length = lambda k: start(k + 1) - start(k)
        lane = lambda index: Sub(c, length(index[1]), index[1])
        route = Route(n, T.lift(0))

        def havoc(cc, seq, seen):
            k, x = cc.int("k", 0), cc.real("x")
            return {"route": Route(n, k), "longitudinal": x}

        def inv(cc, seq, state, seen):
            r, x = state["route"], state["longitudinal"]
            if not isinstance(r, Route):
                return [("a route", False)]
            return [("the rest of the route", And(lt(r.k, n), le(0, r.k), eq(x, s - start(r.k)), Or(eq(r.k, 0), lt(start(r.k), s))))]
        c.loops["while"] = LoopSpec(("route", "longitudinal"), havoc, inv)
    else:
        n, s = c.int("lanes", 1, 8), c.real("s", s=(-5, 40))
        ls = [c.real("length", .5, s=(.5, 6)) for _ in range(n)]
        start = lambda k: sum(ls[:k])
        lane = lambda index: Sub(c, ls[index[1]], index[1])
        route = [("lane", i) for i in range(n)]
    net.get_lane = lane
    lat = c.real("lateral", s=(-3, 3))
    p, h = net.position_heading_along_route(route, s, lat)
    fine = isinstance(p, tuple) and isinstance(h, tuple) and len(p) == 3 and len(h) == 2
    c.ensure("from a lane", fine)
    if fine:
        (k, x, y), (kh, xh) = p, h
        c.ensure("the lane the distance falls on", And(le(0, k), lt(k, n), Or(eq(k, 0), lt(start(k), s)), Or(eq(k, n - 1), le(s, start(k + 1)))))
        c.ensure("the distance minus the lengths before", And(eq(x, s - start(k)), eq(y, lat)))
        c.ensure("heading of the same lane there", And(eq(kh, k), eq(xh, x)))


class Sub(Refuses):
    """The k-th lane of a route, which answers with what it is asked."""

    def __init__(self, c, length, k):
        self.c, self.length, self.k = c, length, k

    def position(self, longitudinal, lateral):
        return self.k, longitudinal, lateral

    def heading_at(self, longitudinal):
        return self.k, longitudinal
