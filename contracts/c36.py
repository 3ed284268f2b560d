from contracts._common import *

GR = "highway_env/road/graphics.py:"
WS = GR + "WorldSurface"
KEYS = "l", "o", "m", "k"


def trunc(c, x):
    """x without its fraction."""
    if not c.sym:
        import math
        return math.trunc(x)
    return T.floor(x) if c.fork(le(0, x)) else -T.floor(-x)


def surface(c):
    """A surface of any size, anywhere, at any scale, with any centring."""
    from highway_env.road.graphics import WorldSurface
    import pygame
    w, h = c.int("width", 1, s=(50, 900)), c.int("height", 1, s=(50, 900))
    s = WorldSurface((int(w), int(h)) if not c.sym else (1, 1), 0, pygame.Surface((1, 1)))
    if c.sym:
        s.get_width, s.get_height, s.get_size = lambda: w, lambda: h, lambda: (w, h)
    s.scaling = c.pos("scaling", s=(.2, 20))
    s.origin = c.vec("origin", 2, s=(-500, 500))
    s.centering_position = [c.real("centring x", s=(-1, 2)), c.real("centring y", s=(-1, 2))]
    return s, w, h


def pixel(c, s, p, i):
    return trunc(c, (p[i] - s.origin[i]) * s.scaling)


@contract("C36.pixels", [WS + ".pix", WS + ".pos2pix", WS + ".vec2pix"], tol=1e-9)
def pixels(c):
    """A distance is the truncation of scaling * distance pixels; a position is at the distances from the origin."""
    s, w, h = surface(c)
    p = c.vec("p", 2, s=(-600, 600))
    d = c.real("distance", s=(-100, 100))
    before = s.origin[0], s.origin[1], s.scaling
    c.ensure("distance", eq(s.pix(d), trunc(c, d * s.scaling)))
    got = s.vec2pix(p)
    again = s.pos2pix(p[0], p[1])
    for i in (0, 1):
        c.ensure("position", eq(got[i], pixel(c, s, p, i)))
        c.ensure("by coordinates", eq(again[i], got[i]))
    c.ensure("nothing changes", And(eq(s.origin[0], before[0]), eq(s.origin[1], before[1]), eq(s.scaling, before[2])))


@contract("C36.centre", [WS + ".move_display_window_to", WS + ".vec2pix"], tol=1e-9)
def centre(c):
    """After centring on a position, the position is at the centring point: its pixel is that of centring * size."""
    s, w, h = surface(c)
    p, q = c.vec("p", 2, s=(-600, 600)), c.vec("q", 2, s=(-600, 600))
    centring, scaling = list(s.centering_position), s.scaling
    kept = p.copy()
    s.move_display_window_to(p)
    for i, size in ((0, w), (1, h)):
        want = centring[i] * size
        c.ensure("origin", eq((p[i] - s.origin[i]) * scaling, want) if c.sym else abs((p[i] - s.origin[i]) * scaling - want) <= 1e-7)
        c.ensure("the position is at the centring point", eq(s.vec2pix(p)[i], trunc(c, want)) if c.sym else
                 abs(s.vec2pix(p)[i] - want) <= 1 + 1e-7)
        off = want + (q[i] - p[i]) * scaling
        c.ensure("others are offset from it", eq(s.vec2pix(q)[i], trunc(c, off)) if c.sym else abs(s.vec2pix(q)[i] - off) <= 1 + 1e-7)
        c.ensure("the position and the centring are kept", And(eq(p[i], kept[i]), eq(s.centering_position[i], centring[i])))
    c.ensure("scale kept", eq(s.scaling, scaling))


@contract("C36.visible", [WS + ".is_visible"], tol=0)
def visible(c):
    """Visible exactly when the pixel is inside the surface extended by the margin (50 if not given)."""
    s, w, h = surface(c)
    p = c.vec("p", 2, s=(-600, 600))
    given = c.bool("margin given")
    m = c.int("margin", s=(-20, 200)) if given else 50
    if not c.sym:           # often at the very edges
        for i, size in ((0, w), (1, h)):
            edge = c.choice("edge", [None, -m, size + m])
            if edge is not None:
                p[i] = s.origin[i] + (edge + c.choice("by", [-1.5, -.5, .5, 1.5])) / s.scaling
    got = s.is_visible(p, m) if given else s.is_visible(p)
    x, y = pixel(c, s, p, 0), pixel(c, s, p, 1)
    c.ensure("visible", Iff(got, And(lt(-m, x), lt(x, w + m), lt(-m, y), lt(y, h + m))))


@contract("C36.keys", [WS + ".handle_event"])
def keys(c):
    """l / o divide / multiply the scaling by the zoom factor, m / k move the centring left / right by the moving factor; nothing
    else changes, other surfaces included, and other events and keys do nothing."""
    import types
    import pygame
    from highway_env.road.graphics import WorldSurface
    before = list(WorldSurface.INITIAL_CENTERING), WorldSurface.INITIAL_SCALING, WorldSurface.SCALING_FACTOR, WorldSurface.MOVING_FACTOR
    s, w, h = surface(c)
    if c.bool("initial centring"):      # as a new surface has it
        s.centering_position = WorldSurface.INITIAL_CENTERING
        c.undo.append(lambda: setattr(WorldSurface, "INITIAL_CENTERING", [.5, .5]))
    configured = s.centering_position
    x, y, scale = configured[0], configured[1], s.scaling
    ox, oy = s.origin[0], s.origin[1]
    key = c.choice("key", [pygame.K_l, pygame.K_o, pygame.K_m, pygame.K_k, pygame.K_a])
    kind = c.choice("event", [pygame.KEYDOWN, pygame.KEYUP])
    s.handle_event(types.SimpleNamespace(type=kind, key=key))
    f, d = (T.num(13) / 10, T.num(1) / 10) if c.sym else (1.3, .1)
    down = kind == pygame.KEYDOWN
    want = scale / f if down and key == pygame.K_l else scale * f if down and key == pygame.K_o else scale
    c.ensure("scaling", eq(s.scaling, want))
    wx = x - d if down and key == pygame.K_m else x + d if down and key == pygame.K_k else x
    c.ensure("centring", len(s.centering_position) == 2 and And(eq(s.centering_position[0], wx), eq(s.centering_position[1], y)))
    c.ensure("origin kept", And(eq(s.origin[0], ox), eq(s.origin[1], oy)))
    c.ensure("the configured centring is kept", And(eq(configured[0], x), eq(configured[1], y)))
    after = list(WorldSurface.INITIAL_CENTERING), WorldSurface.INITIAL_SCALING, WorldSurface.SCALING_FACTOR, WorldSurface.MOVING_FACTOR
    c.ensure("other surfaces are not affected", after == before)


EV = "highway_env/envs/common/graphics.py:EnvViewer"


@contract("C36.viewer", [EV + ".__init__", EV + ".display", EV + ".window_position", WS + ".__init__"])
def viewer(c):
    """The viewer's surface takes size, scaling and centring from the configuration, and each frame is drawn centred on the ego."""
    import types
    import highway_env.envs.common.graphics as G
    ego = types.SimpleNamespace(position=c.vec("ego", 2, s=(-600, 600))) if c.bool("has ego") else None
    size = c.choice("width", [600, 150]), c.choice("height", [150, 64])
    given = c.bool("scaling and centring configured")
    config = {"offscreen_rendering": c.choice("offscreen", [True]), "screen_width": size[0], "screen_height": size[1],
              "real_time_rendering": False, "simulation_frequency": 15}
    if given:
        config["scaling"] = c.pos("scaling", s=(.2, 20))
        config["centering_position"] = [c.real("centring x", s=(-1, 2)), c.real("centring y", s=(-1, 2))]
    env = types.SimpleNamespace(config=config, vehicle=ego, road=object(), action_type=None)
    v = G.EnvViewer(env)
    s = v.sim_surface
    half = T.num(1) / 2 if c.sym else .5
    scale, centring = (config["scaling"], config["centering_position"]) if given else (T.num(55) / 10 if c.sym else 5.5, [half, half])
    c.ensure("size", s.get_width() == size[0] and s.get_height() == size[1])
    c.ensure("scaling", eq(s.scaling, scale))
    c.ensure("centring", And(*[eq(s.centering_position[i], centring[i]) for i in (0, 1)]))
    p = ego.position if ego else [0, 0]
    drawn = []

    def frame(what):
        def f(road, surface, *a, **k):
            drawn.append(what)
            c.ensure("drawn on the viewer's surface", surface is s and road is env.road)
            for i in (0, 1):
                c.ensure("drawn centred on the ego-vehicle", eq((p[i] - s.origin[i]) * scale, centring[i] * size[i]))
        return f
    for name in ("display", "display_road_objects", "display_traffic"):
        c.patch(G.RoadGraphics, name, frame(name))
    v.enabled = c.choice("enabled", [True, False])
    v.display()
    c.ensure("road, then objects, then traffic", drawn == (["display", "display_road_objects", "display_traffic"] if v.enabled else []))
