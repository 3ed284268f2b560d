from contracts._common import *
from contracts.c14 import ManyLanes

NL = ROAD + "RoadNetwork.next_lane"
FR = CTRL + "ControlledVehicle.follow_road"


def counted(c, road_name, n):
    """A road of n lanes, each known only through its distance to the query position."""
    if c.sym:
        return ManyLanes(n)
    ds = {}

    class L:
        def __init__(self, k):
            self.d = c.real("d%s%d" % (road_name, k), 0, s=(0, 5))

        def distance(self, position):
            return self.d
    return [L(k) for k in range(n)]


def net_of(c, lanes, succ):
    """Roads (a, b) and (b, s) for each successor s, with the given numbers of lanes; distances arbitrary."""
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    net.graph = {"a": {"b": counted(c, "ab", lanes["a", "b"])}}
    if succ:
        net.graph["b"] = {s: counted(c, "b" + s, lanes["b", s]) for s in succ}
    asked = net.asked = []
    if c.sym:
        class L:
            def __init__(self, index):
                self.index = index

            def distance(self, position):
                asked.append(position)
                return T.uf("dist_" + self.index[0] + self.index[1], T.lift(self.index[2]))
        net.get_lane = lambda index: L(index)
    return net


def dist(c, net, f, t, k):
    if c.sym:
        return T.uf("dist_" + f + t, T.lift(k))
    return net.graph[f][t][int(k)].d


class Draws:
    """Records the draws; each is arbitrary within its range."""

    def __init__(self, c):
        self.c, self.n = c, []

    def randint(self, low, high=None, size=None):
        lo, hi = (0, low) if high is None else (low, high)
        k = lo + self.c.choice("drawn", list(range(int(hi - lo))))
        self.n.append((lo, hi, k))
        return k


class Name:
    """The name of the k-th road that continues from a node with any number of them."""

    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        if type(other) is not Name:
            return False
        return T.eq(self.k, other.k)

    def __ne__(self, other):
        return Not(self == other)

    __hash__ = None


class ManyRoads:
    """What graph[node] is for a node with any number of continuing roads: one road of any number of lanes per name."""

    def __init__(self, c, n):
        from pyvc.runtime import Many
        self.c, self.n, self.names = c, n, Many(n, lambda k: Name(T.lift(k)))

    def count(self, name):
        return T.uf("lanes of continuing road", name.k)

    def __symlen__(self):
        return self.n

    def keys(self):
        return self.names

    def __getitem__(self, name):
        if type(name) is not Name:
            raise Unsupported("a road named otherwise")
        self.c.require(le(1, self.count(name)))              # every road has lanes
        return ManyLanes(self.count(name))

    def _no(self, *a):
        raise Unsupported("this use of a node with any number of continuing roads")

    __iter__ = __len__ = __contains__ = values = items = get = pop = __setitem__ = __delitem__ = _no


@contract("C06.any-number", [NL], seconds=60)
def any_number(c):
    """As C06.next, past a node where any number of roads continue: without a plan one draw among them decides (each can come
    up), a planned continuation is taken, and the lane is the same one or the closest."""
    k, m0 = c.int("id", 0, s=(0, 3)), c.int("lanes", 1, s=(1, 4))
    c.require(lt(k, m0))
    n = c.int("continuing roads", 1, s=(1, 6))
    planned = c.choice("planned", [False, True])
    finished = c.choice("finished step still in the plan", [False, True])
    p, w = c.vec("p", 2), c.int("another lane", 0, s=(0, 3))
    c.at(w)
    draws, asked = [], []

    class Rng:
        def randint(self, low, high=None, size=None):
            lo, hi = (0, low) if high is None else (low, high)
            d = c.int("drawn", 0, s=(0, 2))
            c.require(And(le(lo, d), lt(d, hi)))
            draws.append((lo, hi, d))
            return d

    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    if c.sym:
        roads = ManyRoads(c, n)
        name = lambda i: Name(T.lift(i))
        index_of, lanes_of = lambda nm: nm.k, roads.count
        distance = lambda nm, i: T.uf("distance", nm.k, T.lift(i))
        net.graph = {"a": {"b": ManyLanes(m0)}, "b": roads}

        class L:
            def __init__(self, index):
                self.index = index

            def distance(self, position):
                asked.append(position)
                return distance(self.index[1], self.index[2])

        def get_lane(index):
            if index[0] != "b" or type(index[1]) is not Name:
                raise Unsupported("a lane elsewhere")
            return L(index)
        net.get_lane = get_lane
    else:
        class L:
            def __init__(self, d):
                self.d = d

            def distance(self, position):
                return self.d
        name = lambda i: "s%d" % i
        index_of, lanes_of = (lambda nm: int(nm[1:])), (lambda nm: len(net.graph["b"][nm]))
        distance = lambda nm, i: net.graph["b"][nm][int(i)].d
        net.graph = {"a": {"b": [None] * m0},
                     "b": {name(i): [L(c.real("d%d/%d" % (i, j), 0, s=(0, 5))) for j in range(c.int("lanes%d" % i, 1, s=(1, 4)))]
                           for i in range(n)}}
    route, goal = None, None
    if planned:
        g = c.int("planned road", 0, s=(0, 2))
        c.require(lt(g, n))
        goal = name(g)
        route = [("a", "b", 0)] * finished + [("b", goal, None)]
    elif finished:
        route = [("a", "b", 0)]
    got = net.next_lane(("a", "b", k), route=route, position=p, np_random=Rng())
    m = lanes_of(got[1])
    at = index_of(got[1])
    c.ensure("an existing road from the end of the current lane", And(got[0] == "b", le(0, at), lt(at, n)))
    if planned:
        c.ensure("the planned road", And(got[1] == goal, not draws))
    else:
        c.ensure("one draw among all the continuing roads", len(draws) == 1 and And(eq(draws[0][0], 0), eq(draws[0][1], n),
                                                                                   eq(at, draws[0][2])))
    c.ensure("a lane of that road", And(le(0, got[2]), lt(got[2], m)))
    same = eq(m0, m)
    c.ensure("same lane number", Implies(same, eq(got[2], k)))
    if c.fork(And(Not(same), lt(w, m))):
        c.ensure("the closest lane", le(distance(got[1], got[2]), distance(got[1], w)))
    c.ensure("distances asked for the given position", all(q is p for q in asked))


@contract("C06.next", [NL], seconds=60, max_paths=3000)
def next_(c):
    """The next lane is on an existing road from the end of the current one, on the planned road when the plan continues there,
    with the same number when the lane counts agree and the closest lane otherwise; any numbers of lanes, up to 3 successors."""
    succ = ["x", "y", "z"][:c.choice("successors", [0, 1, 2, 3])]
    lanes = {("a", "b"): c.int("lanes", 1, s=(1, 4))}
    for s in succ:
        lanes["b", s] = c.int("lanes_" + s, 1, s=(1, 4))
    k = c.int("id", 0, s=(0, 3))
    c.require(lt(k, lanes["a", "b"]))
    w = c.int("another lane", 0, s=(0, 3))
    c.at(w)
    net = net_of(c, lanes, succ)
    cur = ("a", "b", k)
    plan = c.choice("plan", ["none", "empty", "current", "continues", "current then continues", "elsewhere", "current then elsewhere",
                              "another road to its end", "another road from its start"])
    if "continues" in plan and not succ:
        c.require(False)
    goal = succ[c.choice("planned", list(range(len(succ))))] if "continues" in plan else None
    step = ("a", "b", c.choice("planned lane", [0, None]))
    route = {"none": None, "empty": [], "current": [step], "continues": [("b", goal, None), (goal, "t", None)],
             "current then continues": [step, ("b", goal, 0)], "elsewhere": [("q", "r", 0)],
             "another road to its end": [("q", "b", 0), ("t", "u", 0)], "another road from its start": [("a", "r", 0), ("t", "u", 0)],
             "current then elsewhere": [step, ("q", "r", 0)]}[plan]
    rng = Draws(c)
    p = c.vec("p", 2)
    before = {f: {t: l for t, l in d.items()} for f, d in net.graph.items()}
    planned = list(route or [])
    got = net.next_lane(cur, route=route, position=p, np_random=rng)
    if not succ:
        c.ensure("no continuation: the current lane", And(got[0] == "a", got[1] == "b", eq(got[2], k)))
        return
    c.ensure("an existing road from the end of the current lane", And(got[0] == "b", got[1] in succ))
    if goal:
        c.ensure("the planned road", And(got[1] == goal, not rng.n))
    else:
        c.ensure("one draw among the continuing roads", len(rng.n) == 1 and rng.n[0][:2] == (0, len(succ))
                 and got[1] == succ[rng.n[0][2]])
    m = lanes["b", got[1]]
    c.ensure("a lane of that road", And(le(0, got[2]), lt(got[2], m)))
    same = eq(lanes["a", "b"], m)
    c.ensure("same lane number", Implies(same, eq(got[2], k)))
    if c.fork(And(Not(same), lt(w, m))):
        c.ensure("the closest lane", le(dist(c, net, "b", got[1], got[2]), dist(c, net, "b", got[1], w)))
    c.ensure("distances asked for the given position", all(q is p for q in net.asked))
    c.ensure("network unchanged", all(net.graph[f][t] is before[f][t] for f in before for t in before[f])
             and set(net.graph) == set(before) and all(set(net.graph[f]) == set(before[f]) for f in before))
    if route is not None:
        c.ensure("only a finished first step is dropped from the plan",
                 route == (planned[1:] if "current" in plan else planned))


@contract("C06.follow", [FR, NL])
def follow(c):
    """A vehicle past the end of its target lane continues on the next lane for its position and route, with its own generator;
    before the end its target stays."""
    lane = abstract_lane(c)
    v = bare(c, c.choice("class", ["ControlledVehicle", "MDPVehicle", "IDMVehicle"]), speed=0, heading=0)
    t0 = ("a", "b", 0)
    v.target_lane_index = t0
    v.lane_index, v.lane = t0, lane
    v.route = c.choice("route", [None, [("a", "b", 0), ("b", "x", 0)]])
    net = network(c, {t0[:2]: [lane], ("b", "x"): [object()]})
    v.road = road(c, net)
    calls = []

    def next_lane(index, route=None, position=None, np_random=None):
        calls.append((index, route, position, np_random))
        return ("b", "x", 0)
    net.next_lane = next_lane
    ended = c.fork(lane.after_end(v.position))
    v.follow_road()
    if ended:
        c.ensure("switches to the next lane", v.target_lane_index == ("b", "x", 0) and len(calls) == 1)
        c.ensure("for its position and route", calls[0][0] == t0 and calls[0][1] is v.route and calls[0][2] is v.position
                 and calls[0][3] is v.road.np_random)
    else:
        c.ensure("target unchanged", v.target_lane_index == t0 and not calls)
