from contracts._common import *
from contracts.c14 import ManyLanes
from contracts.c18 import nz

TTC = FMDP + "compute_ttc_grid"
TO = OBS + "TimeToCollisionObservation"


class Sel:
    """A selection of cells of a grid: for a cell, its value after f."""

    def __init__(self, grid, key, f=lambda e: e):
        self.grid, self.key, self.f = grid, key, f

    def __each__(self, g):
        return Sel(self.grid, self.key, lambda e: g(self.f(e)))


class Grid:
    """An array (speeds, lanes, slices) of unknown size, known by one arbitrary cell."""

    def __init__(self, c, shape, v, at):
        self.c, self.shape, self.at, self.cell = c, tuple(T.lift(x) for x in shape), at, v

    def __getitem__(self, key):
        return Sel(self, key)

    def within(self, key):
        h, lane, t = key
        return And(le(0, h), lt(h, self.shape[0]), le(0, t), lt(t, self.shape[2]),
                   *[And(le(0, l), lt(l, self.shape[1])) for l in (lane if isinstance(lane, list) else [])])

    @staticmethod
    def has(key, cell):
        h, lane, t = key
        inl = Or(*[eq(l, cell[1]) for l in lane]) if isinstance(lane, list) else And(le(lane.lo, cell[1]), lt(cell[1], lane.hi))
        return And(eq(h, cell[0]), eq(t, cell[2]), inl)

    def __setitem__(self, key, v):
        self.c.ensure("written within the grid", self.within(key))
        if isinstance(v, Sel) and (v.grid is not self or v.key[0] is not key[0] or v.key[1] is not key[1] or v.key[2] is not key[2]):
            raise Unsupported("cells written from other cells")
        # the new value of the cell looked at, by a name, with what is known of it
        before, new = self.cell, v.f(self.cell) if isinstance(v, Sel) else v
        here, self.cell = self.has(key, self.at), self.c.real("cell")
        self.c.assume(eq(self.cell, ite(here, new, before)))
        for fact in (le(before, self.cell), Implies(here, le(new, self.cell)), Implies(Not(here), eq(self.cell, before))):
            if self.c.entails(fact):
                self.c.assume(fact)


GRID_T = [TTC, VEH + "Vehicle.lane_distance_to", CTRL + "MDPVehicle.index_to_speed"]


@contract("C25.at-least", GRID_T, max_paths=6000, seconds=400, feasible=0)
def at_least(c):
    """Any number of vehicles and lanes, any horizon and speed grid: an arbitrary cell is at least the mark any vehicle leaves
    on it."""
    grid(c, "lower", False)


@contract("C25.at-most", GRID_T, max_paths=6000, seconds=400, feasible=0)
def at_most(c):
    """... and at most any bound of the marks of all vehicles (0 without any)."""
    grid(c, "upper", False)


@contract("C25.observer", GRID_T, max_paths=6000, seconds=400, feasible=0)
def observer(c):
    """The same for a given observer rather than the ego vehicle."""
    grid(c, "lower", True)


def grid(c, which, given):
    from highway_env.envs.common import finite_mdp as m
    from highway_env import utils
    V, L, H = c.int("V", 1, s=(1, 3)), c.int("L", 1, s=(1, 3)), c.int("H", 0, s=(0, 6))
    q = c.pos("q", s=(.3, 2))
    rest = c.real("rest", 0, 1, s=(.1, .9))
    c.require(lt(rest, 1))
    lane = abstract_lane(c)
    ego, first = sized(c, bare(c, "MDPVehicle", "ego"), "ego"), bare(c, "MDPVehicle", "first")
    e = bare_env(c)
    e.controlled_vehicles = [first, ego] if given else [ego]
    ego.lane, ego.SPEED_COUNT, ego.lane_index = lane, V, ("a", "b", c.int("own lane", 0, s=(0, 2)))
    ego.route = "the route"
    first.lane_index = ("p", "q", 0)
    if c.sym:
        ego.index_to_speed = lambda k: T.uf("grid speed", T.lift(k))
        c.note("index_to_speed is a function of the index (its values: C15)")

        def not_zero(x, eps=.01):
            # any value other than zero, given by its inverse in units of the time step
            r = T.uf("inverse in steps", T.lift(x))
            c.require(ne(r, 0))
            return 1 / (q * r)
        c.patch(utils, "not_zero", not_zero)
        c.note("not_zero is a function with values other than zero (C13.not-zero)")
        nz_ = not_zero
    else:
        nz_ = nz
    counts = {"b": L, "q": c.int("lanes of the first vehicle", 1, s=(1, 3))}
    linked = {}

    class Net:
        def all_side_lanes(self, index):
            n = counts[index[1]]
            if c.sym:
                return ManyLanes(n)
            return [(index[0], index[1], i) for i in range(n)]

        def is_connected_road(self, a, b, route=None, same_lane=False, depth=0):
            if not (a is ego.lane_index and route is ego.route and depth == 3 and not same_lane):
                c.ensure("connection asked for the observer's route, three roads ahead", False)
            return linked[b]

    def direction(v):
        if c.sym:
            return v.direction
        return c.arr([cos(v.heading), sin(v.heading)])

    def turned(v, tag):
        """Any direction (of a heading: C23.features)."""
        if c.sym:
            d = c.vec("direction" + tag, 2)
            v.__class__ = type("Turned", (type(v),), {"direction": d})
        return v
    turned(ego, "ego")

    def make(cc, tag):
        v = sized(c, turned(bare(c, "Vehicle", tag), tag), tag)
        # on a road with any number of lanes, the observer's or another
        n = counts[tag] = c.int("lanes of the road of " + tag, 1, s=(1, 3))
        k = c.int("lane of " + tag, 0, s=(0, 2))
        c.require(lt(k, n))
        v.lane_index = ("a", tag, k)
        linked[v.lane_index] = (c.sym and tag == "w") or c.bool("connected" + tag)
        if c.sym and which == "upper":
            c.require(And(*[Implies(b, le(cost, bound)) for b, cost in marks(v, at)]))
        return v

    def marks(v, cell):
        """(condition, cost) of the marks of v on the cell."""
        h, l, t = cell
        vs = ego.index_to_speed(h)
        if v is ego or not linked[v.lane_index]:
            return []
        other = v.speed * dot(direction(v), direction(ego))
        d = lane.local_coordinates(v.position)[0] - lane.local_coordinates(ego.position)[0]
        z = nz_(vs - other)
        out = []
        contact = (v.LENGTH + ego.LENGTH) / 2
        for m_, cost in ((0, 1), (-contact, .5), (contact, .5)):
            ttc = (d + m_) / z
            if not c.sym and abs(ttc / q - round(ttc / q)) < 1e-6:
                raise Discard()
            inlane = Or(eq(l, v.lane_index[2]), ne(counts[v.lane_index[1]], L))
            out.append((And(ne(vs, v.speed), le(0, ttc), inlane, Or(eq(floor(ttc / q), t), eq(ceil(ttc / q), t))), cost))
        return out

    h, l, t = c.int("speed", 0, s=(0, 2)), c.int("lane", 0, s=(0, 2)), c.int("slice", 0, s=(0, 5))
    at = (h, l, t)
    e.road = road(c, Net())
    kw = dict(time_quantization=q, horizon=q * (H + rest), **({"vehicle": ego} if given else {}))
    c.require(And(lt(h, V), lt(l, L), lt(t, H)))
    if not c.sym:
        kw["horizon"] = q * (H + .5)
        others = [make(c, "o%d" % i) for i in range(c.choice("others", [0, 1, 2, 3]))]
        e.road.vehicles = others + [ego]
        asked_before(c, others + [ego], lambda: m.compute_ttc_grid(e, **kw))
        g = m.compute_ttc_grid(e, **kw)
        c.ensure("shape", g.shape == (V, L, H))
        want = 0
        for v in others:
            for b, cost in marks(v, at):
                if decided(b):
                    want = max(want, cost)
        c.ensure("the highest mark", eq(g[at], want))
        return
    bound = c.real("bound", 0, 1)
    some = lambda cc, tag: ego if c.bool("itself") else make(c, tag)
    w = [make(c, "w")] if which == "lower" else []
    e.road.vehicles = SymSeq("vehicles", w, lambda cc: some(cc, "u"))
    made = []
    c.symgrid = lambda shape, v: (made.append(Grid(c, shape, v, at)), made[-1])[1]
    reached = (lambda x: [Implies(b, le(cost, x)) for b, cost in marks(w[0], at)]) if w else lambda x: [le(x, bound)]

    def fresh():
        made[0].cell = c.real("cell")

    def contracts(cc, seq, active, k):
        G = made[0]
        if seq.name == "range" and not active:
            def inv(cc, sq, st, seen):
                x = G.cell
                return [("rows filled", And(*[Implies(lt(h, sq.k), b) for b in reached(x)])), ("rows to come", Implies(le(sq.k, h), eq(x, 0)))]
            return LoopSpec((), lambda cc, sq, seen: (fresh(), {})[1], inv)
        if seq.name == "vehicles" and len(active) == 1:
            now = active[0].elem

            def inv2(cc, sq, st, seen):
                x = G.cell
                sofar = [le(0, x)] + (reached(x) if which == "upper" else [Implies(seen[0], b) for b in reached(x)])
                return [("rows filled", And(*[Implies(lt(h, now), b) for b in reached(x)])), ("rows to come", Implies(lt(now, h), eq(x, 0))),
                        ("row being filled", And(*[Implies(eq(h, now), b) for b in sofar]))]
            return LoopSpec((), lambda cc, sq, seen: (fresh(), {})[1], inv2, [ego, e], split=False)
        return None
    c.loops["range"] = c.loops["vehicles"] = contracts
    g = m.compute_ttc_grid(e, **kw)
    c.ensure("the grid made", g is made[0] and len(made) == 1)
    c.ensure("shape", And(eq(g.shape[0], V), eq(g.shape[1], L), eq(g.shape[2], H)))
    c.ensure("at least the mark of any vehicle" if w else "at most the bound of all marks", And(*reached(g.cell)))


def decided(b):
    if isinstance(b, Tri):
        if b.v is None:
            raise Discard()
        return b.v
    return bool(b)


@contract("C25.no-road", [TO + ".observe"])
def no_road(c):
    """Without a road the observation is zero, of the declared number of slices."""
    from highway_env.envs.common.observation import TimeToCollisionObservation as O
    e = bare_env(c)
    e.config["policy_frequency"] = pf = c.choice("pf", [1, 2, 5])
    o = O(e, horizon=10).observe()
    c.ensure("zeros", o.shape == (3, 3, 10 * pf) and not o.any())


@contract("C25.window", [TO + ".observe"])
def window(c):
    """A grid of any size: the observation is the 3 x 3 window centred on the observer's speed and lane; off-road lanes are
    collisions, speeds beyond the grid repeat the border."""
    from highway_env.envs.common import observation as m
    c.lazy_shapes = True
    V, L, H = c.int("speeds", 1, s=(1, 5)), c.int("lanes", 1, s=(1, 5)), c.int("slices", 1, s=(1, 4))
    k, l0 = index(c, "speed index", V, s=(0, 4)), index(c, "lane", L, s=(0, 4))
    grid = field(c, "cell", (V, L, H), s=(0, 1))
    e = bare_env(c)
    pf = e.config["policy_frequency"] = c.pos("pf", s=(.5, 2))
    horizon = c.pos("horizon", s=(1, 9))
    ego = bare(c, "MDPVehicle", "ego")
    ego.speed_index, ego.lane_index, ego.SPEED_COUNT = k, ("a", "b", l0), V
    e.controlled_vehicles = [ego]
    e.road = "road"
    o = m.TimeToCollisionObservation(e, horizon=horizon)
    if c.bool("assigned"):
        first = bare(c, "MDPVehicle", "first")
        first.speed_index, first.lane_index = 0, ("a", "b", 0)
        e.controlled_vehicles = [first, ego]
        o.observer_vehicle = ego
    asked = []

    def ttc_grid(env, time_quantization, horizon, vehicle=None):
        asked.append((env, time_quantization, horizon, vehicle))
        return grid
    c.patch(m, "compute_ttc_grid", ttc_grid)
    got = o.observe()
    c.ensure("grid of the observer, one slice per decision, over the horizon",
             And(len(asked) > 0, *[And(env is e, eq(q * pf, 1), eq(hz, horizon), v is ego) for env, q, hz, v in asked]))
    c.ensure("shape", And(len(got.shape) == 3, *[eq(x, n) for x, n in zip(got.shape, (3, 3, H))]))
    a, b, t = c.choice("row", [0, 1, 2]), c.choice("column", [0, 1, 2]), index(c, "slice", H)
    h, l = clip(k + a - 1, 0, V - 1), l0 + b - 1
    x = elem(got, a, b, t)
    if c.fork(And(le(0, l), lt(l, L))):
        c.ensure("the observer's surroundings", eq(x, elem(grid, h, l, t)))
    else:
        c.ensure("off the road: collision", eq(x, 1))
