from contracts._common import *
from contracts.c36 import surface
from pyvc.spec import trunc

GR = "highway_env/road/graphics.py:"
LG = GR + "LaneGraphics"
RG = GR + "RoadGraphics"
OG = GR + "RoadObjectGraphics"
VG = "highway_env/vehicle/graphics.py:VehicleGraphics"
GAP, LEN = 5, 3         # distance of the starts of two stripes, length of a stripe [m]


def recorded(c, owner, name, log, result=None):
    def f(*a, **k):
        log.append((a, k))
        return result
    c.patch(owner, name, f)


def pixel(s, p, i):
    return trunc((p[i] - s.origin[i]) * s.scaling)


def clipped(x, hi):
    return vmax(0, vmin(x, hi))


@contract("C40.stripes", [LG + ".striped_line", LG + ".continuous_curve", LG + ".continuous_line", LG + ".draw_stripes"], tol=1e-7)
def stripes(c):
    """Any lane, side, first position and number of stripes: the k-th stripe starts k gaps after the first position and is drawn
    once, from its start to its end brought into the lane, at half the lane's width on that side, unless less than half a stripe
    is left of it.  Stripes of a striped line have the stripe length, those of a continuous curve touch; a continuous line is
    one such stripe to the end of the last."""
    import pygame
    from highway_env.road.graphics import LaneGraphics
    c.lazy_shapes = True
    s, w, h = surface(c)
    l = abstract_lane(c)
    if c.sym:
        c.assume(le(0, l.length))
        l.width_at = lambda longitudinal: T.uf("width", T.lift(longitudinal))
    side = c.choice("side", [0, 1])
    kind = c.choice("line", ["striped_line", "continuous_curve", "continuous_line"])
    n = c.int("stripes", 0, s=(0, 30))
    first = c.real("first", s=(-80, 120))
    lines = []
    recorded(c, pygame.draw, "line", lines)
    half = side - (T.num(1) / 2 if c.sym else .5)
    thin = vmax(trunc((T.num(3) / 10 if c.sym else .3) * s.scaling), 1)

    def want(a, b):
        """[obligations] for a stripe from a to b given what was drawn for it"""
        x, y = clipped(a, l.length), clipped(b, l.length)
        lat = half * l.width_at(a)
        long = lt(T.num(LEN) / 2 if c.sym else LEN / 2, y - x)
        out = [("at most once", len(lines) <= 1), ("drawn unless too short", Iff(long, len(lines) == 1))]
        if len(lines) == 1:
            (surf, color, p, q, width), k = lines[0] if len(lines[0][0]) == 5 else (lines[0][0] + (None,) * (5 - len(lines[0][0])), {})
            out += [("on the surface", surf is s), ("white", tuple(color) == (255, 255, 255)), ("width", eq(width, thin))]
            for end, pos in ((p, l.position(x, lat)), (q, l.position(y, lat))):
                out += [("from start to end", eq(end[i], pixel(s, pos, i))) for i in (0, 1)]
        return out
    ends = {"striped_line": LEN, "continuous_curve": GAP}
    if kind != "continuous_line":
        loop = c.loops["many"] = each(c, lambda: lines.clear(), lambda k: want(first + k * GAP, first + k * GAP + ends[kind])) if c.sym else None
    getattr(LaneGraphics, kind)(l, s, n, first, side)
    if kind == "continuous_line":
        for label, b in want(first, first + n * GAP + LEN):
            c.ensure(label, b)
    elif c.sym:
        c.ensure("all stripes", loop.over == 1)
    else:
        drawn = list(lines)
        for k in range(n):
            a, b = first + k * GAP, first + k * GAP + ends[kind]
            x, y = clipped(a, l.length), clipped(b, l.length)
            lines[:] = []
            if abs(y - x - LEN / 2) < 1e-6:
                c.assume(False)
            if y - x > LEN / 2:
                lines += drawn[:1]
                drawn = drawn[1:]
            for label, b_ in want(a, b):
                c.ensure(label, b_)
        c.ensure("nothing else", not drawn)


@contract("C40.lane", [LG + ".display"], tol=1e-7)
def lane_lines(c):
    """Each side has the line of its type, and none if it has none; its stripes start at whole gaps along the lane, before
    everything in sight, and end after it."""
    from highway_env.road.graphics import LaneGraphics
    from highway_env.road.lane import LineType
    s, w, h = surface(c)
    l = abstract_lane(c)
    l.line_types = [c.choice("left", [0, 1, 2, 3]), c.choice("right", [0, 1, 2, 3])]
    drawn = []
    for name in ("striped_line", "continuous_curve", "continuous_line"):
        def f(lane, surface, stripes_count, longitudinal, side, name=name):
            drawn.append((name, lane, surface, stripes_count, longitudinal, side))
        c.patch(LaneGraphics, name, f)
    LaneGraphics.display(l, s)
    kinds = {LineType.STRIPED: "striped_line", LineType.CONTINUOUS: "continuous_curve", LineType.CONTINUOUS_LINE: "continuous_line"}
    want = [(kinds[t], side) for side, t in enumerate(l.line_types) if t != LineType.NONE]
    c.ensure("the line of each side", sorted([(d[0], d[5]) for d in drawn], key=lambda x: x[1]) == want)
    at = l.local_coordinates(s.origin)[0]
    sight = (w + h) / s.scaling
    for name, lane, surf, n, first, side in drawn:
        c.ensure("this lane on this surface", lane is l and surf is s)
        c.ensure("whole number of gaps", eq(first / GAP, floor(first / GAP)) if c.sym else abs(first / GAP - round(first / GAP)) < 1e-9)
        c.ensure("starts before", le(first, at - sight + 11))
        c.ensure("ends behind", le(at + sight - 11, first + n * GAP))


@contract("C40.road", [RG + ".display"])
def road(c):
    """Any road network: the surface is filled first, then every lane is drawn once."""
    import types
    import highway_env.road.graphics as G
    s, w, h = surface(c)
    log = []
    s.fill = lambda *a, **k: log.append("fill")
    recorded(c, G.LaneGraphics, "display", log)

    class Table:
        """A dictionary of unknown size."""
        def __init__(self, name, make):
            self.name, self.make = name, make
            self.all = many(c, name, lambda k, tag: types.SimpleNamespace(key=(name, k), tag=tag), s=(0, 2))[0]
            self.got = {}

        def keys(self):
            return self.all

        def __iter__(self):
            return iter(self.all)

        def __getitem__(self, k):
            if id(k) not in self.got:
                self.got[id(k)] = self.make(k.tag)
            return self.got[id(k)]

        def values(self):
            return self.all.comp(lambda k: self[k], []) if c.sym else [self[k] for k in self.all]

        def items(self):
            return self.all.comp(lambda k: (k, self[k]), []) if c.sym else [(k, self[k]) for k in self.all]
    lanes = []

    def lane_list(tag):
        xs = many(c, "lanes " + tag, lambda k, t: types.SimpleNamespace(lane=t), s=(0, 2))[0]
        lanes.append(xs)
        return xs
    graph = Table("from", lambda a: Table("to " + a, lambda b: lane_list(a + b)))
    r = types.SimpleNamespace(network=types.SimpleNamespace(graph=graph))
    level = []

    def spec(cc, seq, active, k):
        """The loops are nested: over the starts, over the ends, over the lanes."""
        depth = len(active)

        def check(i):
            if depth == 2:
                x = seq.many.at(i)
                return [("the lane is drawn once", len(log) == 1 and log[0] != "fill" and log[0][0][0] is x and log[0][0][1] is s)]
            return [("every part", inner[depth + 1][-1].over == 1 and not log)]
        e = each(c, lambda: (level.append(list(log)) if depth == 0 else None, log.clear(), inner.setdefault(depth + 1, [])), check)
        inner.setdefault(depth, []).append(e)
        return e
    inner = {}
    if c.sym:
        c.loops["many"] = spec
    G.RoadGraphics.display(r, s)
    if c.sym:
        c.ensure("filled before", level == [["fill"]])
        c.ensure("nothing after", log == [])
        c.ensure("all starts", len(inner[0]) == 1 and inner[0][0].over == 1)
    else:
        c.ensure("filled first", log[:1] == ["fill"] and "fill" not in log[1:])
        drawn = [a[0][0] for a in log[1:]]
        want = [x for k in graph.all for q in graph[k].all for x in graph[k][q]]
        c.ensure("each lane once", len(drawn) == len(want) and set(map(id, drawn)) == set(map(id, want)))
        c.ensure("on the surface", all(a[0][1] is s for a in log[1:]))


@contract("C40.rotated", [VG + ".blit_rotate", OG + ".blit_rotate"], tol=1e-6)
def rotated(c):
    """Any image, position, angle and origin (the image's centre if not given): the image is copied once to the surface, rotated
    by the angle, so that the origin is at the position."""
    import math
    import types
    import pygame
    from highway_env.road.graphics import RoadObjectGraphics
    from highway_env.vehicle.graphics import VehicleGraphics
    cls = c.choice("class", [VehicleGraphics, RoadObjectGraphics])
    w, h = c.int("image width", 0, s=(1, 40)), c.int("image height", 0, s=(1, 40))
    pos = [c.real("x", s=(-50, 700)), c.real("y", s=(-50, 700))]
    given = c.bool("origin given")
    origin = [c.real("origin x", s=(-20, 60)), c.real("origin y", s=(-20, 60))] if given else None
    log = []
    if c.sym:
        angle = c.real("angle")
        co, si = c.real("cosine"), c.real("sine")
        c.assume(eq(co * co + si * si, 1))

        class Vector2:
            def __init__(self, x, y=None):
                self.v = (x, y) if y is not None else tuple(x)
            x = property(lambda self: self.v[0])
            y = property(lambda self: self.v[1])

            def rotate(self, a):
                sg = 1 if (T.lift(a) - angle).const() == 0 else -1 if (T.lift(a) + angle).const() == 0 else None
                if sg is None:
                    raise Unsupported("rotation by another angle")
                x, y = self.v
                return Vector2(x * co - sg * y * si, sg * x * si + y * co)

            def __getitem__(self, i):
                return self.v[i]

            def __sub__(self, o):
                return Vector2(self.v[0] - o[0], self.v[1] - o[1])

            def __add__(self, o):
                return Vector2(self.v[0] + o[0], self.v[1] + o[1])
        c.patch(pygame.math, "Vector2", Vector2)
        image = types.SimpleNamespace(get_size=lambda: (w, h), get_width=lambda: w, get_height=lambda: h)
    else:
        angle = c.choice("special", [0., 90., -180., 360., None])
        angle = c.real("angle", s=(-400, 400)) if angle is None else angle
        co, si = math.cos(math.radians(angle)), math.sin(math.radians(angle))
        image = pygame.Surface((int(w), int(h)))
    turned = types.SimpleNamespace()
    turns = []

    def rotate(im, a):
        turns.append((im, a))
        return turned
    c.patch(pygame.transform, "rotate", rotate)
    surf = types.SimpleNamespace(blit=lambda im, at, *a: log.append((im, at)))
    cls.blit_rotate(surf, image, pos, angle, *([origin] if given else []))
    c.ensure("once", len(log) == 1 and log[0][0] is turned and len(turns) == 1 and turns[0][0] is image)
    c.ensure("by the angle", eq(turns[0][1], angle))
    # pygame rotates counterclockwise as seen (y down), into the smallest box; the image's centre is the box's centre
    ox, oy = origin if given else (w / 2, h / 2)
    bw, bh = absv(w * co) + absv(h * si), absv(w * si) + absv(h * co)
    dx, dy = ox - w / 2, oy - h / 2         # the origin as seen from the image's centre, y down
    at = log[0][1]
    c.ensure("origin at the position", And(eq(at[0] + bw / 2 + dx * co + dy * si, pos[0]), eq(at[1] + bh / 2 - dx * si + dy * co, pos[1])))


class Pictures:
    """pygame's surfaces and drawings, recorded."""

    def __init__(self, c, owner):
        import pygame
        self.made, self.rects, self.blits, me = [], [], [], self

        class Surface:
            def __init__(self, size, flags=0, depth=0):
                self.size = tuple(size)
                self.alpha = bool(flags & pygame.SRCALPHA)
                self.rects, self.images = [], []

            def convert_alpha(self):
                new = Surface(self.size, pygame.SRCALPHA)
                new.rects, new.images = list(self.rects), list(self.images)
                return new

            def get_size(self):
                return self.size
        c.patch(pygame, "Surface", Surface)
        c.patch(pygame.draw, "rect", lambda surf, color, rect, width=0, *a, **k: surf.rects.append((color, rect, width)))

        def blit_rotate(surf, image, pos, angle, origin_pos=None, show_rect=False):
            (self.blits if isinstance(surf, type(target[0])) and not isinstance(surf, Surface) else surf.images).append(
                (surf, image, pos, angle, origin_pos, show_rect))
        target = [None]
        self.target = target
        c.patch(owner, "blit_rotate", blit_rotate)


def turn(c, heading, angle):
    """the angle of the drawing is minus the heading, which is taken for zero up to two degrees"""
    two = 2 * c.pi / 180
    small = le(absv(heading), two)
    return And(Implies(small, eq(angle, 0)), Implies(Not(small), eq(angle * c.pi, -heading * 180)))


def near(a, b, by):
    return le(absv(a - b), by)


@contract("C40.vehicle", [VG + ".display"], tol=1e-6)
def vehicle(c):
    """A vehicle is drawn exactly when its position is visible: one image, with a rectangle of the vehicle's dimensions and
    colour in its middle (up to two pixels of rounding), rotated by minus the heading, its centre at the vehicle's pixel."""
    import pygame
    from highway_env.vehicle.graphics import VehicleGraphics
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.dynamics import BicycleVehicle
    s, w, h = surface(c)
    cls = c.choice("class", [Vehicle, IDMVehicle, BicycleVehicle])
    v = bare(c, cls)
    v.action = {"steering": c.real("steering", s=(-.7, .7)), "acceleration": 0}
    v.LENGTH, v.WIDTH = c.pos("length", s=(1, 8)), c.pos("vehicle width", s=(.5, 3))
    pics = Pictures(c, VehicleGraphics)
    pics.target[0] = s
    transparent, offscreen = c.bool("transparent"), c.bool("offscreen")
    color = (1, 2, 3)
    asked = []

    def get_color(vehicle, transparent=False):
        asked.append((vehicle, transparent))
        return color
    c.patch(VehicleGraphics, "get_color", get_color)
    seen = []

    def is_visible(vec, margin=50):
        seen.append((vec, margin))
        return seen_now
    seen_now = c.bool("visible")
    s.is_visible = is_visible
    before = snap(v)
    VehicleGraphics.display(v, s, transparent=transparent, offscreen=offscreen)
    c.ensure("visibility of the vehicle", And(len(seen) == 1, *[eq(seen[0][0][i], v.position[i]) for i in (0, 1)]))
    c.ensure("drawn exactly when visible", len(pics.blits) == (1 if seen_now else 0))
    c.ensure("the vehicle is kept", unchanged(v, before))
    if not seen_now:
        return
    surf, image, pos, angle, origin, show = pics.blits[0]
    c.ensure("on the surface", surf is s and origin is None and not show)
    c.ensure("at its pixel", And(*[eq(pos[i], pixel(s, v.position, i)) for i in (0, 1)]))
    c.ensure("rotated by minus the heading", turn(c, v.heading, angle))
    c.ensure("its colour", len(asked) >= 1 and all(a[0] is v and a[1] == transparent for a in asked))
    filled = [r for r in image.rects if r[2] == 0 and r[0] == color]
    c.ensure("one rectangle of its colour", len(filled) == 1)
    x, y, rw, rh = filled[0][1]
    px = lambda d: trunc(d * s.scaling)
    c.ensure("its dimensions", And(eq(rw, px(v.LENGTH)), eq(rh, px(v.WIDTH))))
    c.ensure("in the middle", And(near(2 * x + rw, image.size[0], 4), near(2 * y + rh, image.size[1], 4)))
    c.ensure("a contour", any(r[2] == 1 and r[0] == VehicleGraphics.BLACK for r in image.rects))
    tires = image.images
    if cls is IDMVehicle:
        c.ensure("no tires", len(tires) == 0)
    else:
        c.ensure("four tires", len(tires) == 4)
        for surf, tire, at, angle, origin, show in tires:
            front = 2 * at[0] - image.size[0]
            c.ensure("front tires turned by the steering angle, rear tires not", Or(
                And(near(front, -px(v.LENGTH), 6), eq(angle, 0)),
                And(near(front, px(v.LENGTH), 6), eq(angle * c.pi, -v.action["steering"] * 180))))
        c.ensure("as many ahead as behind", near(sum(2 * t[2][0] - image.size[0] for t in tires), 0, 12))


@contract("C40.object", [OG + ".display"], tol=1e-6)
def road_object(c):
    """An object is drawn as one rectangle of its dimensions (at least as long as wide) and colour in the middle (up to two
    pixels of rounding) of an image rotated by minus the heading, its centre at the object's pixel."""
    from highway_env.road.graphics import RoadObjectGraphics
    from highway_env.road.objects import Obstacle, Landmark
    s, w, h = surface(c)
    cls = c.choice("class", [Obstacle, Landmark])
    o = object.__new__(cls)
    o.position = c.vec("p", 2, s=(-500, 500))
    o.heading = c.real("heading", s=(-4, 4))
    if not c.sym and c.bool("small heading"):
        o.heading /= 100
    o.LENGTH, o.WIDTH = c.pos("length", s=(1, 8)), c.pos("object width", s=(.5, 3))
    c.require(le(o.WIDTH, o.LENGTH))
    o.hit = False
    pics = Pictures(c, RoadObjectGraphics)
    pics.target[0] = s
    transparent, offscreen = c.bool("transparent"), c.bool("offscreen")
    color = (1, 2, 3)
    asked = []

    def get_color(object_, transparent=False):
        asked.append((object_, transparent))
        return color
    c.patch(RoadObjectGraphics, "get_color", get_color)
    RoadObjectGraphics.display(o, s, transparent=transparent, offscreen=offscreen)
    c.ensure("drawn once", len(pics.blits) == 1)
    surf, image, pos, angle, origin, show = pics.blits[0]
    c.ensure("on the surface", surf is s and origin is None and not show)
    c.ensure("at its pixel", And(*[eq(pos[i], pixel(s, o.position, i)) for i in (0, 1)]))
    c.ensure("rotated by minus the heading", turn(c, o.heading, angle))
    c.ensure("its colour", len(asked) >= 1 and all(a[0] is o and a[1] == transparent for a in asked))
    filled = [r for r in image.rects if r[2] == 0 and r[0] == color]
    c.ensure("one rectangle of its colour", len(filled) == 1)
    px = lambda d: trunc(d * s.scaling)
    c.ensure("its dimensions", And(eq(filled[0][1][2], px(o.LENGTH)), eq(filled[0][1][3], px(o.WIDTH))))
    c.ensure("in the middle", And(*[near(2 * filled[0][1][i] + filled[0][1][i + 2], image.size[i], 4) for i in (0, 1)]))


@contract("C40.colours", [VG + ".get_color", OG + ".get_color"])
def colours(c):
    """A vehicle has its own colour if it has one, else red after a crash, else that of its kind; obstacles are red once hit,
    landmarks green; the transparent colour is the same with an alpha of 30."""
    import types
    from highway_env.road.graphics import RoadObjectGraphics as O
    from highway_env.vehicle.graphics import VehicleGraphics as V
    from highway_env.road.objects import Obstacle, Landmark, RoadObject
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.dynamics import BicycleVehicle
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle, AggressiveVehicle, DefensiveVehicle
    kinds = {Vehicle: V.DEFAULT_COLOR, BicycleVehicle: V.DEFAULT_COLOR, ControlledVehicle: V.DEFAULT_COLOR, MDPVehicle: V.EGO_COLOR,
             IDMVehicle: V.BLUE, LinearVehicle: V.YELLOW, AggressiveVehicle: V.YELLOW, DefensiveVehicle: V.YELLOW}
    transparent = c.choice("transparent", [False, True])
    cls = c.choice("class", list(kinds) + [Obstacle, Landmark])
    x = object.__new__(cls)
    if cls in kinds:
        x.crashed = c.choice("crashed", [False, True])
        own = c.choice("own colour", [None, (7, 8, 9)])
        if own is not None or c.choice("attribute", [False, True]):
            x.color = own
        want = own or (V.RED if x.crashed else kinds[cls])
        got = V.get_color(x, transparent)
    else:
        x.hit = c.choice("hit", [False, True])
        want = {Obstacle: (O.YELLOW, O.RED), Landmark: (O.BLUE, O.GREEN)}[cls][x.hit]
        got = O.get_color(x, transparent)
    c.ensure("colour", tuple(got) == tuple(want) + ((30,) if transparent else ()))
    c.ensure("all colours differ", len({V.RED, V.GREEN, V.BLUE, V.YELLOW}) == 4 and len({O.RED, O.GREEN, O.BLUE, O.YELLOW}) == 4)


@contract("C40.traffic", [RG + ".display_traffic", RG + ".display_road_objects", VG + ".display_trajectory"])
def traffic(c):
    """Any road: each vehicle is drawn once; if histories are recorded, that of each vehicle is drawn before; each object is
    drawn once; each state of a trajectory is drawn once, transparent."""
    import types
    import highway_env.road.graphics as G
    from highway_env.vehicle.graphics import VehicleGraphics
    s = object()
    log = []
    offscreen = c.bool("offscreen")
    freq = c.int("frequency", 1, s=(1, 40))

    def display(vehicle, surface, transparent=False, offscreen=False, label=False):
        log.append(("vehicle", vehicle, surface, transparent, offscreen))

    def history(vehicle, surface, frequency=3, duration=2, simulation=15, offscreen=False):
        log.append(("history", vehicle, surface, simulation, offscreen))

    def thing(object_, surface, transparent=False, offscreen=False):
        log.append(("object", object_, surface, transparent, offscreen))
    c.patch(VehicleGraphics, "display", display)
    c.patch(VehicleGraphics, "display_history", history)
    c.patch(G.RoadObjectGraphics, "display", thing)
    vs, n = many(c, "vehicle", lambda k, tag: types.SimpleNamespace(k=k))
    os_, m = many(c, "object", lambda k, tag: types.SimpleNamespace(k=k))
    r = types.SimpleNamespace(vehicles=vs, objects=os_, record_history=c.bool("histories recorded"))
    what = c.choice("what", ["traffic", "objects", "trajectory"])
    loops = []

    def one(entry, x):
        kind, y, surf, arg, off = entry
        want = {"vehicle": what == "trajectory", "object": False}.get(kind)
        return And(y is x, surf is s, eq(arg, freq) if kind == "history" else arg == want, off == offscreen)

    def spec(cc, seq, active, k):
        before = []

        def start():
            before[:] = [list(log)]
            log.clear()
        e = each(c, start, lambda i: [("drawn once", len(log) == 1 and one(log[0], (os_ if what == "objects" else vs).at(i))),
                                      ("what", len(log) == 1 and log[0][0] == order[k])])
        e.before = before
        loops.append(e)
        return e
    order = {"traffic": (["history"] if r.record_history else []) + ["vehicle"], "objects": ["object"], "trajectory": ["vehicle"]}[what]
    if c.sym:
        c.loops["many"] = spec
    if what == "traffic":
        G.RoadGraphics.display_traffic(r, s, simulation_frequency=freq, offscreen=offscreen)
    elif what == "objects":
        G.RoadGraphics.display_road_objects(r, s, offscreen=offscreen)
    else:
        VehicleGraphics.display_trajectory(vs, s, offscreen=offscreen)
    xs = os_ if what == "objects" else vs
    if c.sym:
        c.ensure("each is drawn", len(loops) == len(order) and all(e.over == 1 and e.before == [[]] for e in loops) and not log)
    else:
        c.ensure("each once, in order", [(e[0], id(e[1])) for e in log] == [(o, id(x)) for o in order for x in xs])
        xs = list(xs) * len(order)
        for e, x in zip(log, xs):
            c.ensure("how", one(e, x))


@contract("C40.history", [VG + ".display_history"])
def history(c):
    """For any recorded history (at most thirty states) and simulation frequency up to a hundred: of the last two seconds, the
    newest state and those whole thirds of a second earlier are drawn once, transparent; higher frequencies draw the newest."""
    import collections
    import types
    from highway_env.vehicle.graphics import VehicleGraphics
    from highway_env.vehicle.kinematics import Vehicle
    freq = c.choice("frequency", list(range(1, 100)) + [120, 1000])
    c.ensure("at most thirty states", Vehicle(None, [0, 0]).history.maxlen == 30)
    off = c.choice("offscreen", [False, True])
    for size in range(31):
        states = [types.SimpleNamespace() for _ in range(size)]
        v = types.SimpleNamespace(history=collections.deque(states, maxlen=30))
        log, s = [], object()

        def display(vehicle, surface, transparent=False, offscreen=False, label=False):
            log.append((vehicle, surface, transparent, offscreen))
        c.patch(VehicleGraphics, "display", display)
        VehicleGraphics.display_history(v, s, simulation=freq, offscreen=off)
        gap = max(1, freq // 3)
        want = [x for k, x in enumerate(states) if k < 2 * freq and k % gap == 0]
        c.ensure("the states drawn", [id(x[0]) for x in log] == [id(x) for x in want])
        c.ensure("how", all(x[1] is s and x[2] and x[3] == off for x in log))
        c.ensure("the history is kept", list(v.history) == states)
