import itertools

from contracts._common import *
from pyvc.runtime import Many

SP = [ROAD + "RoadNetwork.shortest_path", ROAD + "RoadNetwork.bfs_paths"]


def _net(edges):
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    for a, b in edges:
        net.add_lane(a, b, object())
    return net


def distances(edges, start):
    d, todo = {start: 0}, [start]
    while todo:
        x = todo.pop(0)
        for a, b in edges:
            if a == x and b not in d:
                d[b] = d[x] + 1
                todo.append(b)
    return d


def check_all(c, edges, nodes):
    edges = sorted(edges)
    half = c.choice("roads at first", [len(edges)] if len(edges) < 2 else [len(edges), len(edges) // 2])
    net = _net(edges[:half])
    check(c, net, edges[:half], nodes)
    if half < len(edges):           # roads added later count, too
        for a, b in edges[half:]:
            net.add_lane(a, b, object())
        check(c, net, edges, nodes)


def check(c, net, edges, nodes):
    for s in nodes:
        d = distances(edges, s)
        for t in nodes:
            if s == t:
                continue
            p = net.shortest_path(s, t)
            if t not in d:
                c.ensure("empty when unreachable", p == [])
                continue
            c.ensure("starts and ends at the asked nodes", len(p) > 0 and p[0] == s and p[-1] == t)
            c.ensure("follows existing roads", all((a, b) in edges for a, b in zip(p, p[1:])))
            c.ensure("visits no node twice", len(set(p)) == len(p))
            c.ensure("no path has fewer roads", len(p) - 1 == d[t])


class Node(Refuses):
    """A node of the road graph."""

    def __init__(self, name, is_from=True):
        self.name, self.is_from = name, is_from     # is_from: does a road start here?

    def __repr__(self):
        return self.name


class Path(Refuses):
    """A list of nodes of unknown length that starts at the start node: `n` nodes, the last of which is known.
    ok: each step follows a road, no node occurs twice; wit: it is the first `wit` nodes of the witness path (None: it may be
    any path)."""

    def __init__(self, g, n, last, ok=True, wit=None):
        self.g, self.n, self.last, self.ok, self.wit, self.known = g, n, last, ok, wit, {}

    def __contains__(self, x):
        if x is self.g.goal and not self.known.get("goal"):     # (invariant: no path of the queue has reached the goal)
            return False
        if x is self.last:
            return True
        if self.wit is not None and x is self.g.next_:
            return False
        if x not in self.known:
            self.known[x] = self.g.c.bool("in path")
        return self.known[x]

    def __add__(self, more):
        if type(more) is not list or len(more) != 1:
            raise Unsupported("path + %r" % (more,))
        x = more[0]
        new = Path(self.g, self.n + 1, x, self.ok and self.g.targets.get(x) is self.last and x not in self)
        new.known["goal"] = x is self.g.goal
        if self.wit is not None and x is self.g.next_:
            new.wit = self.wit + 1
        return new

    def __getitem__(self, i):
        if isinstance(i, int) and i == -1:
            return self.last
        raise Unsupported("path[%r]" % (i,))


class Queue(Refuses):
    """A queue of (node, path) entries, of unknown length: the paths are in order of length and have h or h + 1 nodes."""

    def __init__(self, g, h, wit):
        self.g, self.h, self.wit, self.added, self.head = g, h, wit, [], None

    def __bool__(self):
        return True if self.wit or self.added else self.g.c.bool("queue not empty")

    def pop(self, i=-1):
        c, g = self.g.c, self.g
        if not (isinstance(i, int) and i == 0) or self.added or self.head is not None:
            raise Unsupported("pop(%r)" % (i,))
        n = c.int("length", 1)
        c.assume(And(le(self.h, n), le(n, self.h + 1)))
        if self.wit and c.bool("head is the witness"):
            c.assume(eq(n, g.j))
            path, self.wit = Path(g, n, g.at_j, wit=g.j), False
            g.on_witness = True
        else:
            if self.wit:
                c.assume(le(n, g.j))
            first = c.bool("initial entry")
            if first:
                c.assume(eq(n, 1))
            path = Path(g, n, g.start if first else Node("head"))
        self.head = g.head = path
        return path.last, path

    def popleft(self):
        return self.pop(0)

    def append(self, entry):
        self.added.append(entry)

    def extend(self, entries):
        self.added.extend(entries)

    def __iadd__(self, entries):
        self.added.extend(entries)
        return self


class Graph(Refuses):
    def __init__(self, g):
        self.g = g

    def __contains__(self, x):
        if type(x.is_from) is not bool:
            x.is_from = self.g.c.bool("has roads")
        return x.is_from

    def keys(self):
        return self

    def __getitem__(self, x):
        g, c = self.g, self.g.c
        if x not in self:
            raise KeyError(x)
        if g.head is None or x is not g.head.last:
            raise Unsupported("roads of another node")

        def new(t):
            g.targets[t] = x
            return t
        other = lambda cc: new(cc.choice("target", [g.goal, Node("other", None)]))
        return Targets(g, [new(g.next_)] if g.on_witness else [], other, g.inner)


class Targets(SymSeq):
    def __init__(self, g, w, other, spec):
        SymSeq.__init__(self, "roads of a node", w, other, spec)

    def keys(self):
        return self


class Ghost:
    """The arbitrary state of the search: start, goal, and (if reachable) any simple path of m roads from start to goal, of
    which some first part of j nodes is in the queue until the first answer."""

    def __init__(self, c, reachable):
        self.c, self.reachable = c, reachable
        self.start, self.goal = Node("start", True if reachable else None), Node("goal", None)
        self.targets, self.on_witness, self.head = {}, False, None
        self.inner = LoopSpec(("queue",), self.havoc_inner, self.inv_inner)

    def witness(self):
        c = self.c
        self.m, self.j = c.int("roads of the witness", 1), c.int("j", 1)
        c.assume(le(self.j, self.m))
        self.at_j = self.start if c.fork(eq(self.j, 1)) else Node("q[j-1]")
        self.next_ = self.goal if c.fork(eq(self.j, self.m)) else Node("q[j]", True)

    # while queue
    def havoc(self, c, seq, seen):
        if self.reachable:
            self.witness()
        return {"queue": Queue(self, c.int("h", 1), self.reachable)}

    def inv(self, c, seq, state, seen):
        q = state["queue"]
        if not isinstance(q, Queue):
            q = list(q)
            return [("starts from the start", len(q) == 1 and len(q[0]) == 2 and q[0][0] is self.start and
                     type(q[0][1]) is list and len(q[0][1]) == 1 and q[0][1][0] is self.start)]
        return self.entries(q) if q.added or q.head is not None else [("a queue", True)]

    # for _next in ...
    def havoc_inner(self, c, seq, seen):
        return {"queue": Queue(self, self.head.n, not self.on_witness or all(seen)) if self.reachable else Queue(self, self.head.n, False)}

    def inv_inner(self, c, seq, state, seen):
        return self.entries(state["queue"], seen)

    def entries(self, q, seen=(True,)):
        out = []
        if not isinstance(q, Queue) or self.head is None:
            return [("a queue", False)]
        for e in q.added:
            fine = type(e) is tuple and len(e) == 2 and isinstance(e[1], Path) and e[1].last is e[0]
            out.append(("paths in the queue are simple and follow roads", fine and e[1].ok))
            out.append(("the goal is not in the queue", fine and e[0] is not self.goal and not e[1].known.get("goal")))
            out.append(("only nodes with roads are in the queue", fine and e[0].is_from is True))
            out.append(("in order of length", eq(e[1].n, self.head.n + 1) if fine else False))
        if self.reachable:
            there = q.wit or any(isinstance(e[1], Path) and e[1].wit is not None for e in q.added)
            done = not self.on_witness or all(seen)
            out.append(("the queue has a first part of every path to the goal", there if done else True))
            if self.on_witness and self.next_ is self.goal:
                out.append(("a road to the goal is an answer", not all(seen)))
        return out


@contract("C05.search", SP, samples=1)
def search(c):
    """On any road graph and for any two different nodes: the answer is a path along roads from start to goal that visits no
    node twice, and no such path has fewer roads (compared with an arbitrary one); no answer only if there is no path."""
    if not c.sym:
        return
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    reachable = c.bool("reachable")
    g = Ghost(c, reachable)
    net.graph = Graph(g)
    c.loops["while"] = LoopSpec(("queue",), g.havoc, g.inv)
    p = net.shortest_path(g.start, g.goal)
    if isinstance(p, list) and p == []:
        c.ensure("empty only when unreachable", not reachable)
        return
    if not isinstance(p, Path):
        raise Unsupported("answer %r" % (p,))
    c.ensure("starts and ends at the asked nodes", p.last is g.goal)
    c.ensure("follows existing roads and visits no node twice", p.ok)
    if reachable:
        c.ensure("no path has fewer roads", le(p.n - 1, g.m))


@contract("C05.small", SP, concrete_only=True, samples=1)
def small(c):
    """Every directed road graph on up to 3 nodes and every acyclic or cyclic graph on 4 nodes with at most 6 roads, every
    pair of nodes (exhaustive)."""
    for n, most in ((2, 9), (3, 9), (4, 5)):
        nodes = "abcd"[:n]     # also those without a road
        pairs = [(a, b) for a in nodes for b in nodes if a != b or n < 4]
        for k in range(0, min(len(pairs), most) + 1):
            for es in itertools.combinations(pairs, k):
                check_all(c, set(es), nodes)


@contract("C05.random", SP, concrete_only=True, samples=400)
def random_(c):
    """Random road graphs on up to 7 nodes."""
    n = c.int("n", 4, 7)
    nodes = "abcdefg"[:n]
    p = c.real("density", .15, .6, s=(.15, .6))
    es = {(a, b) for a in nodes for b in nodes if a != b and c.real("e", 0, 1, s=(0, 1)) < p}
    check_all(c, es, nodes)


@contract("C05.route", [CTRL + "ControlledVehicle.plan_route_to"], samples=60)
def route(c):
    """The planned route is the current lane followed by the roads of the shortest path from its end, of any length, or the
    current lane alone when there is none; the path is asked for anew each time."""
    v = bare(c, c.choice("class", ["ControlledVehicle", "IDMVehicle", "MDPVehicle"]))
    v.lane_index = ("a", "b", c.choice("id", [0, 2]))
    v.target_lane_index = c.choice("target", [("a", "b", 1), ("b", "c", 0)])     # (it may be on the next road already)
    kind = c.choice("path", ["none", "some", "KeyError"])
    if kind == "none":
        path, n = [], 0
    elif c.sym:
        n = c.int("nodes", 2)
        path = Many(n, lambda k: T.uf("node", T.lift(k), isint=True))
    else:
        n = c.int("nodes", 2, 9)
        path = ["node%d" % c.int("node", 0, 30) for _ in range(n)]
    asked = []

    class Net:
        def shortest_path(self, start, goal):
            asked.append((start, goal))
            if kind == "KeyError":
                raise KeyError(start)
            return path
    v.road = road(c, Net())
    v.route = c.choice("route before", [None, [("a", "b", 1), ("b", "e", None)]])
    out = v.plan_route_to("e")
    c.ensure("asked from the end of its lane", asked == [("b", "e")])
    c.ensure("returns the vehicle", out is v)
    if kind != "some":
        c.ensure("the current lane alone without a path", isinstance(v.route, list) and [tuple(r) for r in v.route] == [v.lane_index])
        return
    c.ensure("one step per road", eq(length(v.route), n))
    c.ensure("first the current lane", tuple(v.route[0]) == v.lane_index)
    k = c.int("k", 1, s=(1, 8))
    c.assume(lt(k, n))
    step = v.route[k]
    c.ensure("then the roads of the path", len(step) == 3 and And(eq(step[0], path[k - 1]) if c.sym else step[0] == path[k - 1],
                                               eq(step[1], path[k]) if c.sym else step[1] == path[k], step[2] is None))


def length(xs):
    return xs.__symlen__() if hasattr(type(xs), "__symlen__") else len(xs)


@contract("C05.route-real", SP + [CTRL + "ControlledVehicle.plan_route_to"], concrete_only=True, samples=300)
def route_real(c):
    """The same on random road graphs with the real search, unknown destinations included."""
    n = c.int("n", 3, 6)
    nodes = "abcdef"[:n]
    es = {(a, b) for a in nodes for b in nodes if a != b and c.real("e", 0, 1, s=(0, 1)) < .35} | {("a", "b")}
    v = bare(c, "ControlledVehicle")
    v.lane_index, v.target_lane_index = ("a", "b", 0), ("a", "b", 1)
    v.road = road(c, _net(es))
    goal = c.choice("goal", [x for x in nodes if x != "b"] + ["nowhere"])
    v.plan_route_to(goal)
    d = distances(es, "b")
    c.ensure("starts with the current lane", tuple(v.route[0]) == ("a", "b", 0))
    rest = [tuple(r) for r in v.route[1:]]
    if goal in d:
        c.ensure("follows roads from the end of the lane to the goal", len(rest) == d[goal] and And(rest[0][0] == "b", rest[-1][1] == goal,
                 all(x[1] == y[0] for x, y in zip(rest, rest[1:])), all(r[:2] in es for r in rest)))
    else:
        c.ensure("current lane alone when there is no path", rest == [])
