from contracts._common import *

EV = ENVS + "common.graphics:EnvViewer"
EH = ENVS + "common.graphics:EventHandler"


def keys():
    import pygame
    return {"right": pygame.K_RIGHT, "left": pygame.K_LEFT, "down": pygame.K_DOWN, "up": pygame.K_UP, "other": pygame.K_SPACE}


def any_event(c, pressed=("KEYDOWN", "KEYUP", "MOUSEMOTION")):
    """Any event: of a key or not."""
    import pygame
    import types
    what = c.choice("event", list(pressed))
    e = types.SimpleNamespace(type=getattr(pygame, what))
    key = None
    if what.startswith("KEY"):
        key = c.choice("key", ["right", "left", "down", "up", "other"])
        e.key = keys()[key]
    return e, what, key


@contract("C44.discrete", [EH + ".handle_event", EH + ".handle_discrete_action_event"])
def discrete(c):
    """Pressing right or left asks for more or less speed, down or up for a change to the right or the left lane, when the axis
    is enabled; nothing else does anything."""
    from highway_env.envs.common.action import DiscreteMetaAction
    from highway_env.envs.common.graphics import EventHandler
    axes = c.choice("axes", [(True, True), (True, False), (False, True)])
    a = DiscreteMetaAction(bare_env(c), longitudinal=axes[0], lateral=axes[1])
    log = []
    a.act = log.append
    e, what, key = any_event(c)
    EventHandler.handle_event(a, e)
    label = {"right": "FASTER", "left": "SLOWER", "down": "LANE_RIGHT", "up": "LANE_LEFT"}.get(key) if what == "KEYDOWN" else None
    if label not in a.actions.values():
        label = None
    c.ensure("what the key means", [a.actions[k] for k in log] == ([label] if label else []))


@contract("C44.continuous", [EH + ".handle_event", EH + ".handle_continuous_action_event"])
def continuous(c):
    """Up and down set the throttle to 0.7 and -0.7, right and left the steering, releasing them sets it to zero, when the axis
    is enabled; what is not set keeps its last value."""
    from highway_env.envs.common.action import ContinuousAction
    from highway_env.envs.common.graphics import EventHandler
    axes = c.choice("axes", [(True, True), (True, False), (False, True)])
    a = ContinuousAction(bare_env(c), longitudinal=axes[0], lateral=axes[1])
    last = [c.real("last %d" % k, s=(-1, 1)) for k in range(sum(axes))]
    a.last_action = c.np.array(last)
    kept = a.last_action
    log = []

    def act(action):
        log.append(action)
        a.last_action = action
    a.act = act
    e, what, key = any_event(c)
    EventHandler.handle_event(a, e)
    want = list(last)
    down, up = what == "KEYDOWN", what == "KEYUP"
    if (down or up) and key in ("right", "left") and axes[1]:
        want[-1] = (.7 if key == "right" else -.7) if down else 0
    if (down or up) and key in ("up", "down") and axes[0]:
        want[0] = (.7 if key == "up" else -.7) if down else 0
    c.ensure("at most once", len(log) <= 1)
    got = a.last_action
    c.ensure("what the key means", And(len(got) == len(want), *[eq(x, y) for x, y in zip(got, want)]))
    c.ensure("the last action is not changed", And(*[eq(kept[k], x) for k, x in enumerate(last)]))


@contract("C44.others", [EH + ".handle_event"])
def others(c):
    """Keys do nothing to the actions of several agents."""
    from highway_env.envs.common.action import MultiAgentAction, ActionType
    from highway_env.envs.common.graphics import EventHandler
    a = object.__new__(c.choice("kind", [MultiAgentAction, ActionType]))
    log = []
    a.act, a.agents_action_types = log.append, []
    e, what, key = any_event(c)
    EventHandler.handle_event(a, e)
    c.ensure("nothing", log == [])


@contract("C44.events", [EV + ".handle_events"])
def events(c):
    """Any number of events: each goes to the scene's surface once and, if actions are defined, to them; closing the window
    closes the environment."""
    import pygame
    import types
    import highway_env.envs.common.graphics as G
    log = []
    env = types.SimpleNamespace(action_type=c.choice("actions", [None, "actions"]), close=lambda: log.append(("close", None)))
    v = object.__new__(G.EnvViewer)
    v.env = env
    v.sim_surface = types.SimpleNamespace(handle_event=lambda event: log.append(("surface", event)))
    c.patch(G.EventHandler, "handle_event", lambda action_type, event: log.append((action_type, event)))

    def event(k, tag):
        what = c.choice("what", [pygame.QUIT, pygame.KEYDOWN, pygame.MOUSEMOTION])
        return types.SimpleNamespace(type=what, key=pygame.K_UP, k=k)
    es, n = many(c, "event", event)
    c.patch(pygame.event, "get", lambda *a, **k: es)

    def one(entries, e):
        want = ([("close", None)] if e.type == pygame.QUIT else []) + [("surface", e)] + ([("actions", e)] if env.action_type else [])
        return sorted(((a, id(b)) for a, b in entries), key=str) == sorted(((a, id(b)) for a, b in want), key=str)
    if c.sym:
        s = c.loops["many"] = each(c, log.clear, lambda i: [("each event", one(log, es.at(i)))])
    v.handle_events()
    if c.sym:
        c.ensure("all events", s.over == 1)
    else:
        want = [x for e in es for x in ([("close", None)] if e.type == pygame.QUIT else []) + [("surface", e)] +
                ([("actions", e)] if env.action_type else [])]
        c.ensure("each event in turn", sorted(((a, id(b)) for a, b in log), key=str) == sorted(((a, id(b)) for a, b in want), key=str) and
                 [id(x[1]) for x in log if x[0] == "surface"] == [id(e) for e in es])


class Window:
    def __init__(self, what, log):
        self.what, self.log = what, log

    def blit(self, source, dest, *a, **k):
        self.log.append(("blit", self, source, tuple(dest)))


@contract("C44.agent", [EV + ".set_agent_display"])
def agent(c):
    """The first agent's display gets a surface of its own of the size of the scene and, on screen, a window with room for both;
    later ones replace it on the same surface."""
    import pygame
    import types
    from highway_env.envs.common.graphics import EnvViewer
    w, h = c.int("width", 1, s=(1, 900)), c.int("height", 1, s=(1, 900))
    off = c.choice("offscreen", [True, False])
    log = []

    def made(what):
        def f(size, *a, **k):
            log.append((what, size, Window(what, log)))
            return log[-1][2]
        return f
    c.patch(pygame.display, "set_mode", made("window"))
    c.patch(pygame, "Surface", made("surface"))
    v = object.__new__(EnvViewer)
    v.env = types.SimpleNamespace(config={"screen_width": w, "screen_height": h})
    v.offscreen = off
    v.agent_display, v.agent_surface, v.screen = None, None, "the window"
    first = object()
    v.set_agent_display(first)
    made_ = dict((x[0], x) for x in log)
    c.ensure("once each", sorted(x[0] for x in log) == (["surface"] if off else ["surface", "window"]))
    c.ensure("the display", v.agent_display is first)
    c.ensure("its surface", And(v.agent_surface is made_["surface"][2], eq(made_["surface"][1][0], w), eq(made_["surface"][1][1], h)))
    if off:
        c.ensure("no window", v.screen == "the window")
    else:
        size = made_["window"][1]
        beside = le(w, h)
        c.ensure("room for both", And(v.screen is made_["window"][2], eq(size[0], ite(beside, 2 * w, w)), eq(size[1], ite(beside, h, 2 * h))))
    n, mine, screen = len(log), v.agent_surface, v.screen
    second = object()
    v.set_agent_display(second)
    c.ensure("another agent", v.agent_display is second and v.agent_surface is mine and v.screen is screen and len(log) == n)


@contract("C44.frame", [EV + ".display"])
def frame(c):
    """Each frame: the road first, a predicted trajectory if there is one, the agent's own display on its surface if it has one,
    the traffic last; on screen the scene and, below or beside it, the agent's surface are then shown; frames are saved, numbered
    in turn, only when asked for."""
    import pygame
    import types
    import highway_env.envs.common.graphics as G
    from highway_env.vehicle.graphics import VehicleGraphics
    log = []
    size = c.choice("size", [(600, 150), (150, 600), (64, 64)])
    off, real, save = c.choice("offscreen", [True, False]), c.choice("real time", [True, False]), c.choice("saved", [True, False])
    trajectory, agent_ = c.choice("trajectory", [None, [], ["state"]]), c.choice("agent", [True, False])
    freq = c.choice("frequency", [5, 15])
    v = object.__new__(G.EnvViewer)
    config = {"screen_width": size[0], "screen_height": size[1], "real_time_rendering": real, "simulation_frequency": freq,
              "offscreen_rendering": off}
    v.env = types.SimpleNamespace(config=config, road="road", vehicle=None)
    v.offscreen, v.enabled, v.vehicle_trajectory = off, True, trajectory
    v.sim_surface = Window("scene", log)
    v.sim_surface.move_display_window_to = lambda p: None
    if not off:
        v.screen = Window("window", log)
    v.agent_surface = Window("agent", log)
    v.agent_display = (lambda *a: log.append(("agent",) + a)) if agent_ else None
    v.clock = types.SimpleNamespace(tick=lambda f: log.append(("tick", f)))
    v.SAVE_IMAGES, v.directory, v.frame = c.choice("save images", [True, False]), __import__("pathlib").Path("/nowhere") if save else None, 7

    def drawn(what):
        def f(x, surface, *a, offscreen=None, simulation_frequency=None, **k):
            log.append((what, x, surface, offscreen, simulation_frequency))
        return f
    for name in ("display", "display_road_objects", "display_traffic"):
        c.patch(G.RoadGraphics, name, drawn(name))
    c.patch(VehicleGraphics, "display_trajectory", drawn("trajectory"))
    c.patch(pygame.display, "flip", lambda: log.append(("flip",)))
    c.patch(pygame.image, "save", lambda surface, path: log.append(("image", surface, path)))
    v.display()
    kinds = [x[0] for x in log]
    by = lambda k: [x for x in log if x[0] == k]
    s = v.sim_surface
    c.ensure("the scene, once each", [len(by(k)) for k in ("display", "display_road_objects", "display_traffic")] == [1, 1, 1])
    c.ensure("on the scene", all(x[1] == "road" and x[2] is s for k in ("display", "display_road_objects", "display_traffic") for x in by(k)))
    scene = [k for k in kinds if k in ("display", "display_road_objects", "display_traffic", "trajectory", "agent")]
    c.ensure("road first, traffic last", scene[0] == "display" and scene[-1] == "display_traffic")
    c.ensure("the simulation's frequency", by("display_traffic")[0][4] == freq and all(
        x[3] == off for k in ("display_road_objects", "display_traffic", "trajectory") for x in by(k)))
    c.ensure("the trajectory", [x[1:3] for x in by("trajectory")] == ([(["state"], s)] if trajectory else []))
    c.ensure("the agent", [x[1:] for x in by("agent")] == ([(v.agent_surface, s)] if agent_ else []))
    blits = by("blit")
    if off:
        c.ensure("no window", not blits and not by("flip") and not by("tick"))
    else:
        at = (0, size[1]) if size[0] > size[1] else (size[0], 0)
        c.ensure("the window shows", sorted((x[2].what, x[3]) for x in blits) == ([("agent", at)] if agent_ else []) + [("scene", (0, 0))]
                 and all(x[1] is v.screen for x in blits))
        shown = max(i for i, x in enumerate(log) if x[0] == "blit")
        last = kinds.index("display_traffic")
        c.ensure("when complete", kinds.count("flip") == 1 and kinds.index("flip") > shown > last
                 and all(i > kinds.index("agent") for i, x in enumerate(log) if x[0] == "blit" and x[2].what == "agent"))
        c.ensure("in real time", by("tick") == ([("tick", freq)] if real else []))
    saved = save and v.SAVE_IMAGES
    c.ensure("saved", [x[1:] for x in by("image")] == ([(s, "/nowhere/highway-env_7.png")] if saved else []))
    c.ensure("numbered", v.frame == (8 if saved else 7))


@contract("C44.close", [ABS + "AbstractEnv.close", EV + ".close"])
def close(c):
    """Closing an environment ends its simulation and closes its window, if it has one, once; pygame is shut down with the window."""
    import highway_env.envs.common.graphics as G
    log = []
    e = bare_env(c)
    window = c.bool("window")
    v = object.__new__(G.EnvViewer)
    v.env, v.screen, v.sim_surface, v.agent_surface, v.agent_display, v.offscreen = e, "screen", "scene", None, None, c.bool("offscreen")
    e.viewer = v if window else None
    c.patch(G.pygame, "quit", lambda: log.append("quit"))
    e.close()
    c.ensure("the simulation ends", e.done is True)
    c.ensure("the window is closed, once", log == (["quit"] if window else []) and e.viewer is None)
    e.close()
    c.ensure("closing again does nothing", log == (["quit"] if window else []) and e.viewer is None)
