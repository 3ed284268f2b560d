from contracts._common import *
import math
from contracts.c23 import features_of

OG = OBS + "OccupancyGridObservation"


class Grid:
    """A three-dimensional array of unknown size: cells are known by the writes made to them."""

    def __init__(self, c, shape, old):
        self.c, self.shape, self.old, self.writes = c, shape, old, []

    def fill(self, v):
        self.old, self.writes = (lambda k, j, i: v), []

    def __setitem__(self, k, v):
        self.c.ensure("written within the grid", And(le(0, k[1]), lt(k[1], self.shape[-2]), le(0, k[2]), lt(k[2], self.shape[-1])))
        self.writes.append((k, v))

    def cell(self, k, j, i):
        r = self.old(k, j, i)
        for (a, b, d), v in self.writes:
            if a == k:
                r = ite(And(eq(b, j), eq(d, i)), v, r)
        return r

    def __each__(self, f):
        g = Grid(self.c, self.shape, lambda k, j, i: f(self.cell(k, j, i)))
        return g


def make(c, **kw):
    from highway_env.envs.common.observation import OccupancyGridObservation as O
    e = bare_env(c)
    ego = bare(c, "IDMVehicle", "ego", pos=c.vec("pose", 2, s=(-5, 5)))
    e.controlled_vehicles = [ego]
    e.road = road(c, None)
    return O(e, **kw), e, ego


class Column:
    """A column of a frame: the value of each row."""

    def __init__(self, f):
        self.f = f

    def __each__(self, g):
        return Column(lambda d: g(self.f(d)))

    def _op(g):
        return lambda s, o: Column(lambda d: g(s.f(d), o.f(d) if isinstance(o, Column) else o))
    __add__ = __radd__ = _op(lambda a, b: a + b)
    __mul__ = __rmul__ = _op(lambda a, b: a * b)
    __sub__, __rsub__ = _op(lambda a, b: a - b), _op(lambda a, b: b - a)
    __truediv__, __rtruediv__ = _op(lambda a, b: a / b), _op(lambda a, b: b / a)
    __neg__ = lambda s: Column(lambda d: -s.f(d))


class Frame:
    """A frame with one row per element of a sequence of records of unknown length."""

    def __init__(self, seq):
        if not isinstance(seq, SymSeq) or not seq.w:
            raise Unsupported("a frame of something else")
        self.seq = seq
        self.columns = {k: (lambda d, k=k: d[k]) for k in seq.w[0]}

    def __contains__(self, k):
        return k in self.columns

    def __iter__(self):
        return iter(self.columns)

    def __getitem__(self, k):
        return Column(self.columns[k])

    def __setitem__(self, k, v):
        self.columns[k] = v.f if isinstance(v, Column) else (lambda d: v)

    def row(self, d):
        return {k: f(d) for k, f in self.columns.items()}

    def iterrows(self):
        return self.seq.comp(lambda d: (None, self.row(d)), [])


class Frames:
    """Stands in for pandas (assumed: a frame of records has the records' entries in its rows; operations on a column apply to
    each row; iterrows visits every row)."""

    class DataFrame:
        from_records = staticmethod(Frame)

        def __new__(cls, seq, *a, **k):
            if a or k:
                raise Unsupported("frame with options")
            return Frame(seq)


@contract("C24.cells", [OG + ".observe", OG + ".normalize"], seconds=120)
def cells(c):
    """Any number of vehicles, a grid of any size, origin and step: an arbitrary cell holds, per feature, the clipped value of a
    vehicle whose relative position is in it, 0 if there is none."""
    from highway_env.envs.common import observation as m
    ranges = c.choice("ranges", ["default", "velocities", "all"])
    fr = {"velocities": {"vx": [-20, 40], "heading": [-4, 4]}, "all": {"x": [-100, 100], "y": [-30, 60], "vy": [-9, 9], "presence": [-1, 1]}}.get(ranges)
    fs = {"default": ["vy", "presence"], "velocities": ["presence", "vx", "heading"], "all": ["x", "vy", "presence"]}[ranges]
    steps = [c.pos("step_x", s=(1, 8)), c.pos("step_y", s=(1, 8))]
    lo = [c.real("lo_x", s=(-20, 0)), c.real("lo_y", s=(-20, 0))]
    nx, ny = c.int("nx", 1, s=(1, 6)), c.int("ny", 1, s=(1, 6))
    if c.sym:
        O, e, ego = make(c, features=fs, features_range=dict(fr) if fr else None)
        O.grid_size = c.arr([[lo[0], lo[0] + nx * steps[0]], [lo[1], lo[1] + ny * steps[1]]])
        O.grid_step = c.arr(steps)
        G = O.grid = Grid(c, (len(fs), ny, nx), lambda k, j, i: T.uf("old", T.lift(k), T.lift(j), T.lift(i)))
    else:
        O, e, ego = make(c, features=fs, features_range=dict(fr) if fr else None, grid_step=steps,
                         grid_size=[[lo[0], lo[0] + (nx + .5) * steps[0]], [lo[1], lo[1] + (ny + .5) * steps[1]]])
        O.grid[...] = 7
    j, i = c.int("row", 0, s=(0, 5)), c.int("column", 0, s=(0, 5))
    c.require(And(lt(j, ny), lt(i, nx)))
    norm = fr or {"vx": [-60, 60], "vy": [-60, 60]}

    def val(d, f):
        x = d[f]
        if f in norm:
            x = -1 + 2 * (x - norm[f][0]) / (norm[f][1] - norm[f][0])
        return x

    def vehicle(tag):
        # any position is uniquely: observer + origin of the grid + (whole cells + a fraction of a cell) * step
        a, u = [c.int("cell" + tag, s=(-3, 8)), c.int("cell" + tag, s=(-3, 8))], [c.real("u" + tag, 0, 1, s=(.1, .9)), c.real("u" + tag, 0, 1, s=(.1, .9))]
        c.require(And(lt(u[0], 1), lt(u[1], 1)))
        if not c.sym:
            c.require(And(*[within(x, .01, .99) for x in u]))
        rel = [lo[d] + (a[d] + u[d]) * steps[d] for d in (0, 1)]
        v = bare(c, "Vehicle", tag, pos=c.arr([ego.position[d] + rel[d] for d in (0, 1)]))
        v.at = a
        return v

    def observer():
        """The observer itself is somewhere in the grid, too."""
        a, u = [c.int("cell ego", s=(-3, 8)), c.int("cell ego", s=(-3, 8))], [c.real("u ego", 0, 1, s=(.1, .9)), c.real("u ego", 0, 1, s=(.1, .9))]
        c.require(And(*[And(le(0, u[d]), lt(u[d], 1), eq(lo[d] + (a[d] + u[d]) * steps[d], 0)) for d in (0, 1)]))
        ego.at = a
        return ego
    inside = lambda v: And(eq(v.at[0], i), eq(v.at[1], j))
    if not c.sym:
        vs = [vehicle("v%d" % k) for k in range(c.choice("vehicles", [1, 2, 3]))]
        if c.bool("with the observer"):
            a = [-lo[d] / steps[d] for d in (0, 1)]
            c.require(And(*[within(x - math.floor(x), .01, .99) for x in a]))
            ego.at = [math.floor(x) for x in a]
            vs.insert(c.choice("place", [0, 1]), ego)
        e.road.vehicles = list(vs)
        if c.bool("observed before"):
            place = ego.position.copy()
            ego.position += [steps[0] * 1.3, steps[1] * -2.1]
            O.observe()
            ego.position[...] = place
        obs = O.observe()
        kept = obs.copy()
        e.road.vehicles = [ego]
        O.observe()
        c.ensure("an observation stays as it is when the next one is made", (obs == kept).all())
        c.ensure("shape", obs.shape == (len(fs), ny, nx) == O.space().shape)
        for k, f in enumerate(fs):
            c.ensure("%s of a vehicle in the cell, or 0" % f, Or(
                *[And(inside(v), eq(obs[k, j, i], clip(val(features_of(c, v, ego), f), -1, 1))) for v in vs],
                And(eq(obs[k, j, i], 0), *[Not(inside(v)) for v in vs])))
        return
    # the values of the vehicles in the cell are those with an arbitrary property P, per feature
    isvalue = lambda f, x: eq(T.uf("value of a vehicle in the cell", fs.index(f), T.lift(x)), 1)

    def new(cc, tag):
        v = observer() if c.bool("itself") else vehicle(tag)
        v.values = {f: val(features_of(c, v, ego), f) for f in fs}
        for f in fs:
            c.require(Implies(inside(v), isvalue(f, clip(v.values[f], -1, 1))))
        return v
    w = new(c, "w")
    e.road.vehicles = SymSeq("vehicles", [w], lambda cc: new(cc, "u"))
    c.patch(m, "pd", Frames())
    layer = []

    def good(k, seen, g=None):
        x = (g or G).cell(k, j, i)
        x = x if g else clip(x, -1, 1)
        return Or(isvalue(fs[k], x), And(eq(x, 0), *([Not(inside(w))] if seen else [])))

    def contracts(cc, seq, active, site):
        if active:
            return None
        layer.append(0)
        now = len(layer) - 1

        def havoc(cc, sq, seen):
            G.old, G.writes = (lambda *k: T.uf("cell%d" % now, *[T.lift(x) for x in k])), []
            return {}

        def inv(cc, sq, st, seen):
            return [("layers filled", And(*[good(k, True) for k in range(now)])), ("layer being filled", good(now, seen[0]))] + \
                [("layers to be filled", And(*[eq(G.cell(k, j, i), 0) for k in range(now + 1, len(fs))]))]
        return LoopSpec((), havoc, inv)
    for n in ("vehicles", "vehicles'", "vehicles''"):
        c.loops[n] = contracts
    obs = O.observe()
    for k, f in enumerate(fs):
        c.ensure("%s of a vehicle in the cell, or 0" % f, good(k, True, obs))


@contract("C24.shape", [OG, OG + ".space"])
def shape(c):
    """The grid has one layer per feature and floor(extent / step) rows and columns; without a road it is zero."""
    from highway_env.envs.common.observation import OccupancyGridObservation as O
    ny, nx = c.choice("rows", [1, 2, 3]), c.choice("columns", [1, 2])
    sx, sy = c.pos("step_x", s=(1, 8)), c.pos("step_y", s=(1, 8))
    rx, ry = c.real("rest_x", 0, 1, s=(0, .9)), c.real("rest_y", 0, 1, s=(0, .9))
    c.require(And(lt(rx, 1), lt(ry, 1)))
    lx, ly = c.real("lo_x", s=(-20, 0)), c.real("lo_y", s=(-20, 0))
    if not c.sym:
        rx, ry = .5, .5
    fs = c.choice("features", [["presence"], ["vx", "vy", "presence"]])
    o = O(bare_env(c), features=fs, grid_size=[[lx, lx + (nx + rx) * sx], [ly, ly + (ny + ry) * sy]], grid_step=[sx, sy])
    c.ensure("shape", o.space().shape == (len(fs), ny, nx))
    c.ensure("bounds", bool((o.space().low == -1).all()) and bool((o.space().high == 1).all()))
    z = o.observe()
    c.ensure("zeros without a road", z.shape == (len(fs), ny, nx) and not z.any())


@contract("C24.defaults", [OG])
def defaults(c):
    """Defaults: presence and relative velocities on an 11 by 11 grid of 5 m cells centred on the observer; absolute grids are
    refused."""
    O, e, ego = make(c)
    c.ensure("features", O.features == ["presence", "vx", "vy"])
    c.ensure("shape", O.space().shape == (3, 11, 11))
    c.ensure("cells", And(eq(list(O.grid_step), [5, 5]), eq([list(x) for x in O.grid_size], [[-27.5, 27.5], [-27.5, 27.5]])))
    O.absolute = True
    c.ensure("absolute refused", isinstance(c.raises(O.observe), NotImplementedError))
