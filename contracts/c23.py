from contracts._common import *
from pyvc.runtime import Many

KO = OBS + "KinematicObservation"
ALL = ["presence", "x", "y", "vx", "vy", "heading", "cos_h", "sin_h", "cos_d", "sin_d"]


def features_of(c, v, origin=None, intentions=True):
    """The documented features of vehicle v, relative to origin."""
    d = {"presence": 1, "x": v.position[0], "y": v.position[1], "vx": v.speed * cos(v.heading), "vy": v.speed * sin(v.heading),
         "heading": v.heading, "cos_h": cos(v.heading), "sin_h": sin(v.heading), "cos_d": 0, "sin_d": 0}
    if origin is not None:
        d["x"], d["y"] = d["x"] - origin.position[0], d["y"] - origin.position[1]
        d["vx"], d["vy"] = d["vx"] - origin.speed * cos(origin.heading), d["vy"] - origin.speed * sin(origin.heading)
    return d


@contract("C23.features", [VEH + "Vehicle.to_dict", VEH + "Vehicle.velocity", VEH + "Vehicle.direction", VEH + "Vehicle.destination",
                           VEH + "Vehicle.destination_direction"])
def features(c):
    """The features of a vehicle: position, velocity, heading; relative to the origin vehicle's when one is given; the
    direction of the destination only if intentions are shown."""
    v, o = bare(c, c.choice("class", ["Vehicle", "IDMVehicle"]), "v"), bare(c, "IDMVehicle", "o")
    goes = c.bool("has a route") and hasattr(v, "route")
    lane = abstract_lane(c)
    if goes:
        v.road = o.road = road(c, network(c, {("a", "b"): [abstract_lane(c, "x"), lane]}))
        v.route = [("a", "b", 0), ("a", "b", 1)]
    rel, shown = c.bool("relative"), c.bool("intentions")
    got = v.to_dict(o if rel else None, observe_intentions=shown)
    want = features_of(c, v, o if rel else None)
    for k in ALL[:8]:
        c.ensure(k, eq(got[k], want[k]))
    c.ensure("a direction has two components", len(v.destination_direction) == 2)
    if not (goes and shown):
        c.ensure("no destination shown", And(eq(got["cos_d"], 0), eq(got["sin_d"], 0)))
    else:
        end = lane.position(lane.length, 0)
        d = [end[0] - v.position[0], end[1] - v.position[1]]
        n2 = d[0] * d[0] + d[1] * d[1]
        if c.fork(And(eq(d[0], 0), eq(d[1], 0))):
            c.ensure("no direction at the destination", And(eq(got["cos_d"], 0), eq(got["sin_d"], 0)))
        else:
            n = sqrt(n2)
            c.ensure("towards the destination", And(eq(got["cos_d"] * n, d[0]), eq(got["sin_d"] * n, d[1])))


@contract("C23.closest", [ROAD + "Road.close_vehicles_to"])
def closest(c):
    """Any number of vehicles: those within the distance, other than the observer and (unless allowed) not more than two
    lengths behind, sorted by absolute lane distance, the first count of them."""
    lane = abstract_lane(c)
    ego = sized(c, bare(c, "Vehicle", "ego"))
    ego.lane = lane
    dist = c.pos("distance", s=(20, 90))
    see = c.bool("see behind")
    count = c.choice("count", [None, 0, 1, 4])
    near = lambda w: lt(norm2(w.position - ego.position), dist)
    ahead = lambda w: lane.local_coordinates(w.position)[0] - lane.local_coordinates(ego.position)[0]
    if c.sym:
        w = bare(c, "Vehicle", "w") if c.bool("someone else") else ego
        vs = SymSeq("vehicles", [w], lambda cc: bare(c, "Vehicle", "u"))
    else:
        others = [bare(c, "Vehicle", "o%d" % i) for i in range(c.choice("others", list(range(7))))]
        k = c.choice("observer", list(range(len(others) + 1)))
        vs = others[:k] + [ego] + others[k:]
    r = road(c, None, vehicles=vs)
    ego.road = r
    got = r.close_vehicles_to(ego, dist, count=count, see_behind=see) if not (c.sym and count is None) else r.close_vehicles_to(ego, dist, see_behind=see)
    fits = lambda w: And(w is not ego, near(w), Or(see, lt(-2 * ego.LENGTH, ahead(w))))
    if c.sym:
        kept = [x for x in got.w]
        c.ensure("exactly those that fit", Iff(len(kept) == 1, fits(w)))
        c.ensure("themselves", And(len(kept) <= 1, not kept or kept[0] is w))
        c.ensure("nearest first", And(isinstance(got, SymSeq) and "key" in got.__dict__, not got.reverse, eq(got.key(w), absv(ahead(w)))))
        c.ensure("the first count of them", got.cut == count)
    else:
        want = [v for v in vs if decided(fits(v))]
        c.ensure("exactly those that fit", all(any(x is y for y in want) for x in got))
        c.ensure("themselves", len({id(x) for x in got}) == len(got))
        c.ensure("the first count of them", len(got) == (len(want) if count is None else min(count, len(want))))
        key = [float(absv(ahead(x))) for x in got]
        c.ensure("nearest first", all(a <= b + 1e-9 for a, b in zip(key, key[1:])) and all(any(x is y for x in got) or not key or float(absv(ahead(y))) >= key[-1] - 1e-9 for y in want))


def decided(b):
    if isinstance(b, Tri):
        if b.v is None:
            raise Discard()
        return b.v
    return bool(b)


def observation(c, **kw):
    from highway_env.envs.common.observation import KinematicObservation as K
    e = bare_env(c)
    ego = bare(c, "IDMVehicle", "ego")
    ego.lane_index = ("a", "b", 0)
    e.controlled_vehicles = [ego]
    e.road = road(c, None)
    return K(e, **kw), e, ego


@contract("C23.normalise", [KO + ".normalize_obs", UTIL + "lmap"])
def normalise(c):
    """Every feature with a range is its affine image on [-1, 1], clipped to it if so configured; others are untouched.
    Without ranges: 5 times the top speed along x, 4 m per lane across, twice the top speed for velocities."""
    import pandas as pd
    from contracts.c14 import ManyLanes
    from highway_env.road.road import RoadNetwork
    own = c.bool("ranges configured")
    ranges = {}
    if own:
        for f in ["x", "vy", "heading"]:
            lo, hi = c.real("lo_" + f, s=(-50, -1)), c.real("hi_" + f, s=(0, 50))
            c.require(lt(lo, hi))
            ranges[f] = [lo, hi]
    cl = c.bool("clip")
    K, e, ego = observation(c, features_range=dict(ranges) if own else None, clip=cl)
    n = c.int("lanes", 1, s=(1, 5))
    net = RoadNetwork()
    net.graph = {"a": {"b": ManyLanes(n) if c.sym else [None] * n}}
    e.road.network = net
    if not own and c.sym:
        net.all_side_lanes = lambda index: ManyLanes(n) if index is ego.lane_index else None
        c.note("all_side_lanes lists all lanes of the road (C05.sides)")
    V = 30
    want_r = ranges if own else {"x": [-5 * V, 5 * V], "y": [-4 * n, 4 * n], "vx": [-2 * V, 2 * V], "vy": [-2 * V, 2 * V]}
    fs = c.choice("features", [["presence", "x", "y", "vx", "vy"], ["vy", "heading", "x"]])
    rows = c.choice("rows", [1, 2])
    raw = [{f: c.real(f + str(i), s=(-200, 200)) for f in fs} for i in range(rows)]
    df = K.normalize_obs(pd.DataFrame.from_records(raw)[fs])
    c.ensure("same features", list(df.columns) == fs and len(df) == rows)
    for i in range(rows):
        for f in fs:
            x = raw[i][f]
            if f in want_r:
                lo, hi = want_r[f]
                y = -1 + 2 * (x - lo) / (hi - lo)
                x = clip(y, -1, 1) if cl else y
            c.ensure("affine" if f in want_r else "untouched", eq(df[f].iloc[i], x))


@contract("C23.rows", [KO + ".observe", KO + ".space", KO], bounded="at most 3 rows", seconds=100)
def rows(c):
    """Shape (vehicles_count, features); the observer first, then the close vehicles in order (shuffled among themselves if so
    configured), then zeros; other vehicles relative to the observer unless absolute."""
    fs = c.choice("features", [["presence", "x", "y", "vx", "vy"], ["heading", "cos_h", "y"]])
    N = c.choice("vehicles count", [1, 2, 3])
    absolute, see = c.bool("absolute"), c.bool("see behind")
    order = c.choice("order", ["sorted", "shuffled"])
    norm = c.bool("normalise")
    fr = {"y": [-12, 12], "vx": [-60, 60]}
    K, e, ego = observation(c, features=fs, vehicles_count=N, absolute=absolute, order=order, normalize=norm, see_behind=see,
                            features_range=dict(fr))
    sp = K.space()
    c.ensure("space", sp.shape == (N, len(fs)) and bool((sp.low == -1).all()) and bool((sp.high == 1).all()))
    if c.bool("no road yet"):
        e.road = None
        o = K.observe()
        c.ensure("zeros without a road", o.shape == (N, len(fs)) and not o.any())
        return
    others = [bare(c, "IDMVehicle", "o%d" % i) for i in range(c.choice("others", list(range(N))))]
    asked = []

    def close_vehicles_to(vehicle, distance, count=None, see_behind=True):
        asked.append((vehicle, distance, count, see_behind))
        return list(others)
    e.road.close_vehicles_to = close_vehicles_to
    asked_before(c, [ego] + others, K.observe)
    asked.clear(), e.np_random.log.clear()
    obs = K.observe()
    c.ensure("asks for the closest ones", asked and all(a == (ego, e.PERCEPTION_DISTANCE, N - 1, see) for a in asked))
    c.ensure("shape", obs.shape == (N, len(fs)))

    def val(d, f):
        if norm and f in fr:
            lo, hi = fr[f]
            return clip(-1 + 2 * (d[f] - lo) / (hi - lo), -1, 1)
        return d[f]
    want = [[val(features_of(c, ego), f) for f in fs]]
    want += [[val(features_of(c, o, None if absolute else ego), f) for f in fs] for o in others]
    want += [[0] * len(fs)] * (N - len(want))
    c.ensure("the observer first", eq(list(obs[0]), want[0]))
    if order == "sorted":
        c.ensure("then the others in order, then zeros", And(True, *[eq(list(obs[i]), want[i]) for i in range(1, N)]))
    elif N == 3:
        one = And(eq(list(obs[1]), want[1]), eq(list(obs[2]), want[2]))
        two = And(eq(list(obs[1]), want[2]), eq(list(obs[2]), want[1]))
        c.ensure("then the others in some order", Or(one, two))
        c.ensure("shuffled by the environment's generator", ("shuffle", None) in e.np_random.log)
    else:
        c.ensure("then the others", N == 1 or eq(list(obs[1]), want[1]))


class Table(Refuses):
    """A data frame of an unknown number of rows: cell(i, column).  (What is assumed of pandas: a frame made from records has one
    row per record; columns are selected, replaced and tested by name; append puts the other frame's rows after its own.)"""

    def __init__(self, columns, n, cell):
        self.columns, self.n, self.cell = list(columns), T.lift(n), cell

    @property
    def shape(self):
        return self.n, len(self.columns)

    def __symlen__(self):
        return self.n

    def __contains__(self, name):
        return name in self.columns

    def __getitem__(self, what):
        if isinstance(what, list):
            if not all(x in self.columns for x in what):
                raise KeyError(what)
            return Table(what, self.n, self.cell).of(self.g)
        if what not in self.columns:
            raise KeyError(what)
        from pyvc.lazy import Lazy
        cell = self.cell
        return Lazy((self.n,), lambda i: cell(i, what))

    def __setitem__(self, what, column):
        from pyvc.lazy import Lazy
        if not isinstance(column, Lazy) or what not in self.columns:
            raise Unsupported("column %r" % what)
        old = self.cell
        self.cell = lambda i, f: column.at(i) if f == what else old(i, f)

    def append(self, other, ignore_index=False):
        if not isinstance(other, Table) or set(other.columns) != set(self.columns):
            raise Unsupported("append")
        mine, n, theirs = self.cell, self.n, other.cell
        g = self.g
        return Table(self.columns, n + other.n, lambda i, f: mine(i, f) if g.fork(lt(i, n)) else theirs(T.lift(i) - n, f)).of(g)

    def of(self, c):
        self.g = c
        return self

    @property
    def values(self):
        from pyvc.lazy import Lazy, pick
        cell, names = self.cell, list(self.columns)
        return Lazy(self.shape, lambda i, j: cell(i, names[int(T.lift(j).const())]))


class Pandas(Refuses):
    def __init__(self, c):
        class DataFrame(Table):
            def __init__(self, data=None, columns=None, **k):
                from pyvc.lazy import Lazy
                if not isinstance(data, Lazy) or columns is None or k:
                    raise Unsupported("DataFrame")
                Table.__init__(self, columns, data.shape[0], lambda i, f: data.at(i, columns.index(f)))
                self.g = c

            @staticmethod
            def from_records(records):
                if isinstance(records, list):
                    if len(records) != 1:
                        raise Unsupported("records")
                    return rows_of(records[0], 1, lambda k: records[0])
                if not isinstance(records, Many):
                    raise Unsupported("records")
                first = records.at(c.int("row", 0))
                return rows_of(first, records.n, records.at)

        def rows_of(first, n, at):
            return Table(list(first), n, lambda i, f: at(i)[f]).of(c)
        self.DataFrame = DataFrame


@contract("C23.any-rows", [KO + ".observe", KO + ".normalize_obs", KO], samples=1, seconds=100, max_paths=4000)
def any_rows(c):
    """The same for any vehicles_count and any number of close vehicles, up to the shuffling: the i-th row is that of the observer, of
    the i-th close vehicle, or zero."""
    if not c.sym:
        return
    import highway_env.envs.common.observation as module
    fs = c.choice("features", [["presence", "x", "y", "vx", "vy"], ["heading", "cos_h", "y"]])
    N, m = c.int("vehicles count", 1), c.int("others", 0)
    c.assume(le(m, N - 1))
    absolute, see, norm, cl = c.bool("absolute"), c.bool("see behind"), c.bool("normalise"), c.bool("clip")
    fr = {"y": [-12, 12], "vx": [-60, 60]}
    K, e, ego = observation(c, features=fs, vehicles_count=N, absolute=absolute, normalize=norm, see_behind=see, clip=cl,
                            features_range=dict(fr))

    def vehicle(k, tag):
        v = bare(c, "IDMVehicle", tag)
        v.position = c.arr([per(c, "x", k), per(c, "y", k)])
        v.heading, v.speed = per(c, "heading", k), per(c, "speed", k)
        return v
    others, m_ = many(c, "others", vehicle)
    c.assume(eq(m_, m))
    asked = []

    def close_vehicles_to(vehicle, distance, count=None, see_behind=True):
        asked.append(And(vehicle is ego, eq(distance, e.PERCEPTION_DISTANCE), eq(count, N - 1), see_behind is see))
        return others
    e.road.close_vehicles_to = close_vehicles_to
    c.lazy_shapes = True
    c.patch(module, "pd", Pandas(c))
    c.note("pandas (select, replace, append and fill rows) stands for its documentation; C23.rows runs the real one")
    obs = K.observe()
    c.ensure("asks for the closest ones", And(len(asked) > 0, *asked))
    c.ensure("shape", And(eq(obs.shape[0], N), obs.shape[1] == len(fs)))
    i = c.int("i", 0)
    c.assume(lt(i, N))

    def val(d, f):
        if norm and f in fr:
            lo, hi = fr[f]
            y = -1 + 2 * (d[f] - lo) / (hi - lo)
            return clip(y, -1, 1) if cl else y
        return d[f]
    j = c.choice("column", list(range(len(fs))))
    f, got = fs[j], obs[i, j]
    if c.fork(eq(i, 0)):
        c.ensure("the observer first", eq(got, val(features_of(c, ego), f)))
    elif c.fork(le(i, m)):
        c.ensure("then the others in order", eq(got, val(features_of(c, others.at(i - 1), None if absolute else ego), f)))
    else:
        c.ensure("then zeros", eq(got, 0))


@contract("C23.defaults", [KO, ABS + "AbstractEnv"])
def defaults(c):
    """Defaults: presence and relative position and velocity of the five closest, normalised and clipped; the perception distance
    is six seconds at top speed."""
    K, e, ego = observation(c)
    c.ensure("features", K.features == ["presence", "x", "y", "vx", "vy"])
    c.ensure("options", (K.vehicles_count, K.absolute, K.order, K.normalize, K.clip, K.see_behind, K.observe_intentions) == (5, False, "sorted", True, True, False, False))
    c.ensure("perception distance", eq(e.PERCEPTION_DISTANCE, 6 * 30))
    mine = bare(c, "Vehicle", "mine")
    c.ensure("the first controlled vehicle observes", K.observer_vehicle is ego)
    K.observer_vehicle = mine
    c.ensure("unless another is set", K.observer_vehicle is mine)
