from contracts._common import *
from contracts.c14 import same_index

NET = ROAD + "RoadNetwork"
CV = CTRL + "ControlledVehicle"


def lane_of(c, tag, nodes):
    return (c.choice(tag + " from", nodes), c.choice(tag + " to", nodes), c.int(tag + " lane", 0, s=(0, 2)))


@contract("C42.same", [NET + ".is_same_road", NET + ".is_leading_to_road"])
def same(c):
    """Lanes are of the same road when both its nodes are theirs; a lane leads to the roads that start where its road ends; where
    asked for, the numbers of the lanes are compared as well."""
    from highway_env.road.road import RoadNetwork as N
    a, b = lane_of(c, "first", ["a", "b", "c"]), lane_of(c, "second", ["a", "b", "c"])
    exact = c.bool("compare lanes")
    number = Or(Not(exact), eq(a[2], b[2]))
    c.ensure("same road", Iff(N.is_same_road(a, b, exact), And(a[:2] == b[:2], number)))
    c.ensure("leading to", Iff(N.is_leading_to_road(a, b, exact), And(a[1] == b[0], number)))
    c.ensure("lanes are not compared by default", And(Iff(N.is_same_road(a, b), a[:2] == b[:2]), Iff(N.is_leading_to_road(a, b), a[1] == b[0])))


@contract("C42.connected", [NET + ".is_connected_road", NET + ".is_same_road", NET + ".is_leading_to_road"])
def connected(c):
    """Any depth, plan and number of roads at the crossing, over the function's own contract for smaller depths or shorter plans
    (which it keeps getting smaller): connected exactly when the second lane is of the first one's road or leads to it, or, within
    depth, of or to a road the first one's vehicle goes to: along its plan where it has one from there, any road otherwise."""
    from highway_env.road.road import RoadNetwork
    if not c.sym:
        return real_connected(c)
    net = RoadNetwork()
    node = lambda tag: c.choice(tag, ["a", "b", "c", "d"])
    one, two = ("a", "b", c.int("first lane", 0)), (node("second from"), node("second to"), c.int("second lane", 0))
    exact = c.bool("compare lanes")
    depth = c.int("depth", 0)
    plan = c.choice("plan", [None, [], [("a", "b", 1)], [("a", "b", None), ("b", "c", None), ("c", "d", 0)], [("b", "c", 2)], [("b", "d", None), ("d", "a", 1)],
                             [("c", "d", 0), ("a", "b", 0)]])
    roads, n = many(c, "roads", lambda k, tag: ("road", k))
    asked = []

    class Roads(dict):
        def keys(self):
            return roads
        __iter__ = None

    class Graph(dict):
        """Only the crossing is looked at: further roads are behind the function's own contract."""
        def _at(self, node):
            if node not in ("a", "b"):
                from pyvc.core import Unsupported
                raise Unsupported("a search that does not go through is_connected_road")

        def get(self, node, *default):
            self._at(node)
            return dict.get(self, node, *default)

        def __getitem__(self, node):
            self._at(node)
            return dict.__getitem__(self, node)

        def __contains__(self, node):
            self._at(node)
            return dict.__contains__(self, node)
    net.graph = Graph({"a": {"b": []}})
    if c.bool("the crossing has roads"):
        net.graph["b"] = Roads()
    else:
        roads, n = (), 0

    def recursive(lane_index_1, lane_index_2, route=None, same_lane=False, depth=0):
        asked.append((lane_index_1, lane_index_2, route, same_lane, depth))
        if isinstance(lane_index_1[1], tuple):
            return lt(0, T.uf("connected", lane_index_1[1][1]))
        return lt(0, c.real("connected"))
    i = c.int("any road", 0)
    c.at(i)
    real = RoadNetwork.is_connected_road.__get__(net)
    net.is_connected_road = recursive
    got = real(one, two, plan, exact, depth)
    number = Or(Not(exact), eq(one[2], two[2]))
    now = Or(And(two[:2] == one[:2], number), And(two[1] == one[0], number))
    c.ensure("the same road or leading to it", Implies(now, got))
    for l1, l2, route, e, d in asked:
        c.ensure("for the same lane", And(same_index(l2, two), Iff(e, exact)))
        c.ensure("smaller", And(le(0, d), le(d, depth), Or(lt(d, depth), And(plan is not None, len(plan or ()) > len(route or ())))))
    own = bool(plan) and plan[0][:2] == ("a", "b")
    goes = bool(plan) and plan[0][0] == "b"
    c.ensure("not beyond the depth", Implies(And(Not(now), eq(depth, 0)), Not(got)))
    if not asked:
        if n is not 0 and not own and not goes:
            c.ensure("all roads are looked at", Implies(And(Not(now), lt(0, depth), Not(got)), eq(n, 0)))
        c.ensure("nowhere to go", Implies(got, now))
        return
    l1, _, route, _, d = asked[0]
    if own or goes:
        c.ensure("along the plan", len(asked) == 1 and route == plan[1:])
        c.ensure("from its road", And(same_index(l1, one), eq(d, depth)) if own else And(l1 == plan[0], eq(d, depth - 1)))
    else:
        for l1, _, route, _, d in asked:
            c.ensure("any road of the crossing", And(l1[0] == "b", isinstance(l1[1], tuple), eq(l1[2], one[2]), eq(d, depth - 1), route is plan))
        far = lambda k: lt(0, T.uf("connected", k))
        c.ensure("found", Implies(And(le(0, i), lt(i, n), lt(0, depth), far(i)), got))
        c.ensure("only if there is one", Implies(And(got, Not(now)), Or(*[And(le(0, k), lt(k, n), far(k)) for k in [x[0][1][1] for x in asked]])))


def real_connected(c):
    """The same on real networks, against the set of roads within reach."""
    n = c.int("nodes", 2, 5)
    nodes = "abcde"[:n]
    es = sorted({(a, b) for a in nodes for b in nodes if a != b and c.real("e", 0, 1, s=(0, 1)) < .4} | {("a", "b")})
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    for a, b in es:
        net.add_lane(a, b, object())
    one, two = c.choice("first", es) + (c.int("first lane", 0, 1),), c.choice("second", es) + (c.int("second lane", 0, 1),)
    exact, depth = c.bool("compare lanes"), c.int("depth", 0, 4)
    plan, at = [], c.choice("plan starts", ["road", "end", "none"])
    last = one[:2] if at == "road" else one[1]
    if at == "road":
        plan, last = [one[:2] + (None,)], one[1]
    for _ in range(c.int("planned", 0, 3) if at != "none" else 0):
        out = [e for e in es if e[0] == last]
        if not out:
            break
        e = c.choice("next", out)
        plan.append(e + (c.choice("lane", [0, 1]),))
        last = e[1]

    def reached(lane, plan, depth):
        yield lane
        if plan and plan[0][:2] == lane[:2]:
            plan = plan[1:]
        if depth:
            if plan and plan[0][0] == lane[1]:
                yield from reached(plan[0], plan[1:], depth - 1)
            else:
                for e in es:
                    if e[0] == lane[1]:
                        yield from reached(e + (lane[2],), plan, depth - 1)
    want = any((two[:2] == x[:2] or two[1] == x[0]) and (not exact or two[2] == x[2]) for x in reached(one, plan, depth))
    c.ensure("connected", net.is_connected_road(one, two, plan or None, exact, depth) == want)
    c.ensure("by default only the road and those leading to it", net.is_connected_road(one, two) == (two[:2] == one[:2] or two[1] == one[0]))


@contract("C42.routes", [CV + ".get_routes_at_intersection"])
def routes(c):
    """The first planned road (of the next three) that ends at a crossing decides: one route per road from there, following the plan
    so far and keeping the lane number where that road has one, otherwise leaving the lane open; none at a crossing: the plan is the only route; no plan: none."""
    v = bare(c, c.choice("class", ["ControlledVehicle", "IDMVehicle"]))
    n = c.choice("planned", [0, 1, 2, 3, 4])
    names = "abcdef"
    lane = c.choice("lane", [None, 1])
    plan = [(names[i], names[i + 1], lane if i % 2 else 2) for i in range(n)] if n else c.choice("none", [None, []])
    ends = [c.choice("roads from the end", [None, 0, 1, 2, 3]) for i in range(min(n, 3))]
    net = network(c, {})
    net.graph = {"a": {"b": []}}
    for i, k in enumerate(ends):
        if k is not None:
            net.graph[names[i + 1]] = {x: ["lane"] * lanes for x, lanes in [("x", 1), (names[i + 2], 2), ("y", 3)][:k]}
    if n == 4:
        net.graph["e"] = {"x": [], "y": []}       # beyond three roads
    v.road, v.route = road(c, net), plan
    before = list(plan) if plan else plan
    got = v.get_routes_at_intersection()
    first = [i for i, k in enumerate(ends) if k is not None and k >= 2]
    if not n:
        want = []
    elif not first:
        want = [plan]
    else:
        i = first[0]
        want = [plan[:i + 1] + [(names[i + 1], x, plan[i][2] if plan[i][2] is not None and plan[i][2] < len(lanes) else None)]
                for x, lanes in net.graph[names[i + 1]].items()]
    c.ensure("routes", got == want)
    c.ensure("the plan is as it was", v.route == before)


@contract("C42.choose", [CV + ".set_route_at_intersection"])
def choose(c):
    """The chosen route (numbered around, or at random) becomes the plan; without any, the plan stays."""
    v = bare(c, c.choice("class", ["ControlledVehicle", "IDMVehicle"]))
    n = c.choice("routes", [0, 1, 2, 3])
    rs = ["route %d" % i for i in range(n)]
    v.get_routes_at_intersection = lambda: rs
    v.road = road(c, network(c, {}))
    v.route = before = [("a", "b", 0)]
    to = c.choice("to", ["random", 0, 1, 2, 5, -1])
    v.set_route_at_intersection(to)
    if not n:
        c.ensure("the plan stays", v.route is before)
    elif to == "random":
        draws = [x for k, x in v.road.np_random.log]
        c.ensure("one of them, by the road's generator", v.route in rs and len(draws) == 1)
    else:
        c.ensure("the one asked for", v.route == rs[to % n])


@contract("C42.act", ["highway_env/road/road.py:Road.act", "highway_env/road/road.py:Road.__init__"])
def act(c):
    """Any number of vehicles decide, each once, in order, with no instruction; a road has its own lists of vehicles and objects
    unless they are given, and its own generator unless one is."""
    from highway_env.road.road import Road
    log = []

    class V:
        def __init__(self, k):
            self.k = k

        def act(self, action=None):
            log.append((self.k, action))
    vs, n = many(c, "vehicles", lambda k, tag: V(k))
    net, rng = network(c, {}), Rng(c)
    given = c.choice("given", [True, False])
    if c.sym:
        from pyvc import proxy
        c.patch(proxy, "GLOBAL_RANDOM", [lambda name: lambda *a: Rng(c)])
    objects = ["an object"]
    r = Road(net, vs, objects, rng, True) if given else Road(net, None, None)
    c.ensure("network", r.network is net)
    if given:
        c.ensure("as given", r.objects is objects and r.np_random is rng and r.record_history is True)
    else:
        other = Road(net)
        c.ensure("its own lists", And(r.vehicles == [] and r.objects == [], r.vehicles is not other.vehicles, r.objects is not other.objects,
                                      r.np_random is not other.np_random, r.np_random is not None))
        r.vehicles = vs
    if c.sym:
        loop = c.loops["many"] = each(c, lambda: log.clear(), lambda k: [("decides once", And(len(log) == 1, eq(log[0][0], k), log[0][1] is None) if log else False)])
    r.act()
    if c.sym:
        c.ensure("every one", Or(loop.over == 1, eq(n, 0)))
    else:
        c.ensure("every one, in order", log == [(k, None) for k in range(n)])
