from contracts._common import *
from pyvc.runtime import Many

SHAPES = [[("a", "b", 1)], [("a", "b", 3)], [("a", "b", 2), ("b", "a", 1)], [("a", "b", 1), ("a", "c", 2)],
          [("a", "b", 1), ("b", "c", 1), ("c", "a", 1)], [("a", "b", 2), ("a", "c", 1), ("c", "b", 1)],
          [("a", "a", 2)], [("b", "a", 1), ("a", "b", 2), ("a", "a", 1)]]


class AnyLane:
    """A lane known only through its distance to the query position (C03 says what that is)."""

    def __init__(self, c, k):
        self.c, self.d, self.dh, self.calls = c, c.real("d%d" % k, s=(0, 5)), c.real("dh%d" % k, s=(0, 5)), []

    def distance(self, position):
        return self.d

    def distance_with_heading(self, position, heading=None, heading_weight=1.0):
        self.calls.append((position, heading, heading_weight))
        return self.d if heading is None else self.dh


@contract("C04.closest", [ROAD + "RoadNetwork.get_closest_lane_index"], bounded=True, max_paths=3000)
def closest(c):
    """No lane is strictly closer than the returned one, which belongs to the network (networks of up to 4 lanes on 3 roads,
    arbitrary lane geometry)."""
    shape = c.choice("shape", SHAPES)
    k, lanes, index = 0, {}, {}
    for f, t, n in shape:
        lanes[f, t] = []
        for i in range(n):
            l = AnyLane(c, k)
            lanes[f, t].append(l)
            index[f, t, i] = l
            k += 1
    net = network(c, lanes)
    p, h = c.vec("p", 2), (c.real("h") if c.bool("with heading") else None)
    got = net.get_closest_lane_index(p, h) if h is not None or c.bool("explicit") else net.get_closest_lane_index(p)
    got = (got[0], got[1], int(got[2]))
    c.ensure("a lane of the network", got in index)
    d = lambda l: l.d if h is None else l.dh
    c.ensure("no lane is closer", And(*[le(d(index[got]), d(l)) for l in index.values()]))
    if not c.sym:                   # later, everything may have moved
        p += [3., 1.]
        for l in index.values():
            l.d, l.dh = c.real("later", s=(0, 5)), c.real("later h", s=(0, 5))
        again = net.get_closest_lane_index(p, h)
        c.ensure("no lane is closer later on", all(d(index[(again[0], again[1], int(again[2]))]) <= d(l) for l in index.values()))
    c.ensure("distances asked for this position and heading",
             all(q[0] is p and q[1] is h and q[2] == 1.0 for l in index.values() for q in l.calls))


class Place:
    """The lanes of one road of an arbitrary network: their number is unknown, the k-th one is at distance d(k)."""

    def __init__(self, g, a, b):
        self.g, self.a, self.b = g, a, b
        self.n = g.c.int("lanes %s %s" % (a, b), 1)
        g.places[a, b] = self

    def d(self, k):
        return T.uf("distance to %s %s" % (self.a, self.b), T.lift(k))

    def lanes(self):
        return Many(self.n, lambda k: Found(self, k))


class Found(Refuses):
    def __init__(self, place, k):
        self.place, self.k = place, k

    def distance_with_heading(self, position, heading=None, heading_weight=1.0):
        g = self.place.g
        g.c.ensure("distances asked for this position and heading", position is g.p and heading is g.h and heading_weight == 1.0)
        return self.place.d(self.k)


class Level(Refuses):
    """A dictionary of the road graph: the given items (the way to the witness lane) and any number of others."""

    def __init__(self, name, w, other):
        self.name, self.w, self.other = name, w, other

    def items(self):
        return SymSeq(self.name, self.w, self.other)


class Grown(Refuses):
    """A list a loop appends to, of unknown length: one entry for each lane visited so far.  `base` says which lanes those
    are (the same for the list of distances and the list of indices)."""

    def __init__(self, base, what):
        self.base, self.what, self.added = base, what, []

    def append(self, x):
        self.added.append(x)

    def __symseq__(self, what, key=None, *a):
        if what != "argmin" or self.added or self.what != "distances":
            raise Unsupported(what)
        return self.base.closest()

    def __getitem__(self, i):
        for j, (place, k) in self.base.cells:
            if j.m == T.lift(i).m:
                return (place.a, place.b, k) if self.what == "indexes" else place.d(k)
        return self._refuse()


class Base:
    def __init__(self, g, has):
        self.g, self.has, self.cells = g, has, []

    def closest(self):
        """The position of the smallest distance: an arbitrary lane, not farther than the witness if that was visited."""
        c, g = self.g.c, self.g
        j = c.int("position")
        if c.bool("the witness is closest"):
            c.assume(self.has)
            cell = g.place, g.k
        else:
            place = Place(g, "x", "y")
            k = c.int("k")
            c.assume(And(le(0, k), lt(k, place.n), Implies(self.has, le(place.d(k), g.place.d(g.k)))))
            cell = place, k
        self.cells.append((j, cell))
        return j


class AnyGraph:
    """An arbitrary network with an arbitrary witness lane (a, b, k)."""

    def __init__(self, c, p, h):
        self.c, self.p, self.h, self.places = c, p, h, {}
        self.place = Place(self, "a", "b")
        self.k = c.int("witness", 0)
        c.assume(lt(self.k, self.place.n))
        self.count = 0

    def graph(self):
        def nodes(cc):
            self.count += 1
            a = "z%d" % self.count

            def other(cc):
                self.count += 1
                b = cc.choice("to", ["b", "c%d" % self.count])
                return b, Place(self, a, b).lanes()
            return a, Level("roads", [], other)

        def more(cc):
            self.count += 1
            b = "d%d" % self.count
            return b, Place(self, "a", b).lanes()
        return Level("nodes", [("a", Level("roads", [("b", self.place.lanes())], more))], nodes)

    def visited(self, d, x):
        """The witness has an entry."""
        if not isinstance(d, Grown):
            return False
        out = [d.base.has]
        for i in x.added:
            if type(i) is tuple and len(i) == 3 and (i[0], i[1]) == ("a", "b"):
                out.append(eq(i[2], self.k))
        return Or(*out)

    def contract(self, c, seq, active, k):
        """Of each of the three loops: the two lists have corresponding entries, and the witness's if it was visited before the
        loop or the loop has come across it."""
        before = []

        def there(seen):
            if seq.name == "many":
                x = seq.many.at(0)
                x = x if isinstance(x, Found) else x[1]
                return lt(self.k, seq.k) if x.place is self.place else False
            return And(bool(seq.w), *seen) if seq.w else False

        def havoc(c, seq, seen):
            base = Base(self, c.symbool("visited"))
            return {"distances": Grown(base, "distances"), "indexes": Grown(base, "indexes")}

        def inv(c, seq, state, seen):
            d, x = state["distances"], state["indexes"]
            if not before:
                before.append(self.visited(d, x))
            if type(d) is list and type(x) is list:
                return [("one entry per lane", d == [] and x == [])]
            if not (isinstance(d, Grown) and isinstance(x, Grown) and d.what == "distances" and x.what == "indexes"):
                raise Unsupported("lists of another kind")
            out = [("one entry per lane", d.base is x.base and len(d.added) == len(x.added))]
            for a, b in zip(d.added, x.added):
                place = self.places.get(tuple(b[:2])) if type(b) is tuple and len(b) == 3 else None
                out.append(("the distance and index of the same lane", And(le(0, b[2]), lt(b[2], place.n), eq(a, place.d(b[2]))) if place else False))
            out.append(("the lane is among them", Implies(Or(before[0], there(seen)), self.visited(d, x))))
            return out
        return LoopSpec(("distances", "indexes"), havoc, inv)


@contract("C04.nearest", [ROAD + "RoadNetwork.get_closest_lane_index"], samples=1)
def nearest(c):
    """On any network: the returned index is that of a lane, and an arbitrary other lane is not closer."""
    if not c.sym:
        return
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    p, h = c.vec("p", 2), (c.real("h") if c.bool("with heading") else None)
    g = AnyGraph(c, p, h)
    net.graph = g.graph()
    c.loops["nodes"] = c.loops["roads"] = c.loops["many"] = g.contract
    got = net.get_closest_lane_index(p, h)
    place = g.places.get(tuple(got[:2])) if isinstance(got, tuple) and len(got) == 3 else None
    c.ensure("a lane of the network", And(le(0, got[2]), lt(got[2], place.n)) if place else False)
    if place:
        c.ensure("no lane is closer", le(place.d(got[2]), g.place.d(g.k)))


class Appended(Refuses):
    """The lanes of a road, however many; only a lane added at the end shows."""

    def __init__(self):
        self.added = []

    def append(self, x):
        self.added.append(x)

    def __iadd__(self, xs):
        self.added += xs
        return self


@contract("C04.add", [ROAD + "RoadNetwork.add_lane", ROAD + "RoadNetwork.get_lane"], samples=20)
def add(c):
    """Whatever the network: adding a lane puts it at the end of the lanes of its road (a new road if there was none), and
    changes nothing else."""
    from highway_env.road.road import RoadNetwork
    net, there = RoadNetwork(), c.choice("in the network", ["nothing", "its start", "its road"])
    other, beside, lanes, lane = object(), object(), Appended(), object()
    net.add_lane("x", "y", other)
    if there != "nothing":
        net.add_lane("a", "y", beside)
    if there == "its road":
        net.add_lane("a", "b", object())
        net.graph["a"]["b"] = lanes
    net.add_lane("a", "b", lane)
    c.ensure("other roads stay", And(set(net.graph) == {"x", "a"}, list(net.graph["x"]) == ["y"], net.graph["x"]["y"][0] is other,
                                     len(net.graph["x"]["y"]) == 1,
                                     set(net.graph["a"]) == ({"b"} if there == "nothing" else {"b", "y"}),
                                     there == "nothing" or (len(net.graph["a"]["y"]) == 1 and net.graph["a"]["y"][0] is beside)))
    if there == "its road":
        c.ensure("after those of its road", And(net.graph["a"]["b"] is lanes, len(lanes.added) == 1 and lanes.added[0] is lane))
    else:
        c.ensure("first of its road", len(net.graph["a"]["b"]) == 1 and And(net.graph["a"]["b"][0] is lane, net.get_lane(("a", "b", 0)) is lane))


class Numbered(Refuses):
    def __init__(self, k):
        self.k = k


@contract("C04.road", [ROAD + "RoadNetwork.get_lane", ROAD + "RoadNetwork.all_side_lanes", ROAD + "RoadNetwork.side_lanes"], samples=60)
def road_(c):
    """On a road of any number of lanes: an index looks up the lane at that place, index None the only lane, the lanes next to
    it are those of the next lower and higher index, and all of them are listed in order."""
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    n, k = c.int("lanes", 1, s=(1, 6)), c.int("k", 0, s=(0, 5))
    c.require(lt(k, n))
    net.graph = {"a": {"b": Many(n, Numbered) if c.sym else [Numbered(i) for i in range(n)], "c": [Numbered(-1)]}, "b": {"a": [Numbered(-2)]}}
    index = ("a", "b", k)
    got = net.get_lane(index)
    c.ensure("lookup", eq(got.k, k))
    if c.fork(eq(n, 1)):
        c.ensure("the only lane", eq(net.get_lane(("a", "b", None)).k, 0))
    side = net.side_lanes(index)
    for s in side:
        c.ensure("lanes next to it", len(s) == 3 and And(s[0] == "a", s[1] == "b", Or(eq(s[2], k - 1), eq(s[2], k + 1)), le(0, s[2]), lt(s[2], n)))
    c.ensure("each of them once", And(eq(len(side), ite(lt(0, k), 1, 0) + ite(lt(k, n - 1), 1, 0)), len(side) < 2 or ne(side[0][2], side[1][2])))
    every = net.all_side_lanes(index)
    i = c.int("i", 0, s=(0, 5))
    c.assume(lt(i, n))
    c.ensure("as many as the road has", eq(every.__symlen__() if isinstance(every, Many) else len(every), n))
    s = every[i]
    c.ensure("all in order", len(s) == 3 and And(s[0] == "a", s[1] == "b", eq(s[2], i)))


@contract("C04.network", [ROAD + "RoadNetwork.add_lane", ROAD + "RoadNetwork.get_lane", ROAD + "RoadNetwork.lanes_list",
                          ROAD + "RoadNetwork.all_side_lanes", ROAD + "RoadNetwork.side_lanes"], bounded=True, samples=60)
def net_(c):
    """Every index looks up the very lane added under it, insertion order is kept, index None means the only lane, and the
    side lanes are the adjacent ones (networks of up to 4 lanes added in any interleaving)."""
    from highway_env.road.road import RoadNetwork
    shape = c.choice("shape", SHAPES)
    net, added = RoadNetwork(), {}
    todo = [(f, t) for f, t, n in shape for _ in range(n)]
    while todo:
        f, t = todo.pop(c.choice("next", list(range(len(todo)))))
        l = object()
        net.add_lane(f, t, l)
        added.setdefault((f, t), []).append(l)
    for (f, t), ls in added.items():
        for i, l in enumerate(ls):
            c.ensure("lookup", net.get_lane((f, t, i)) is l)
            side = net.side_lanes((f, t, i))
            c.ensure("side lanes", sorted(side) == [(f, t, j) for j in (i - 1, i + 1) if 0 <= j < len(ls)])
        c.ensure("all lanes of the road", sorted(net.all_side_lanes((f, t, 0))) == [(f, t, j) for j in range(len(ls))])
        if len(ls) == 1:
            c.ensure("the only lane", net.get_lane((f, t, None)) is ls[0])
        c.ensure("order kept", list(net.graph[f][t]) == ls)
    c.ensure("every lane listed once", sorted(map(id, net.lanes_list())) == sorted(id(l) for ls in added.values() for l in ls))


@contract("C04.vehicle", [VEH + "Vehicle.__init__", VEH + "Vehicle.on_state_update", ROAD + "RoadNetwork.get_closest_lane_index"])
def vehicle_lane(c):
    """A vehicle's lane is the closest lane to its position and heading, from construction on and after each update."""
    from highway_env.vehicle.kinematics import Vehicle
    net = AnyNetwork(c, lane=object())
    p, h = c.vec("p", 2), c.real("h")
    v = Vehicle(road(c, net), p, h, c.real("v"))
    c.ensure("at construction", And(len(net.calls) == 1, eq(net.calls[0][0], p), eq(net.calls[0][1], h), v.lane is net.lane,
                                    v.lane_index == net.index))
    v.position = c.vec("q", 2)
    v.heading = c.real("g")
    v.on_state_update()
    c.ensure("after an update", And(len(net.calls) == 2, eq(net.calls[1][0], v.position), eq(net.calls[1][1], v.heading)))
