from contracts._common import *


class Shape:
    def __init__(self, shape):
        self.shape = shape


def grid(c):
    V, L, H = c.int("V", 1, s=(1, 4)), c.int("L", 1, s=(1, 4)), c.int("H", 1, s=(1, 6))
    return Shape((V, L, H))


def state(c, g, tag=""):
    V, L, H = g.shape
    h, i, j = c.int("h" + tag, 0, s=(0, 3)), c.int("i" + tag, 0, s=(0, 3)), c.int("j" + tag, 0, s=(0, 5))
    c.require(And(lt(h, V), lt(i, L), lt(j, H)))
    return h, i, j


def following(c, g, s, a):
    """The documented next state."""
    (h, i, j), (V, L, H) = s, g.shape
    first = c.fork(eq(j, 0))
    di = -1 if a == 0 else 1 if a == 2 else 0
    dh = 1 if a == 3 and first else -1 if a == 4 and first else 0
    return clip(h + dh, 0, V - 1), clip(i + di, 0, L - 1), clip(j + 1, 0, H - 1)


def flat(g, s):
    V, L, H = g.shape
    return (s[0] * L + s[1]) * H + s[2]


@contract("C26.transition", [FMDP + "transition_model", FMDP + "clip_position"])
def transition(c):
    """Any grid, state and action, evaluated on arrays of states: each goes to the documented next state, which is a state."""
    from highway_env.envs.common.finite_mdp import transition_model
    g = grid(c)
    n = c.choice("states at once", [1, 2])
    ss = [state(c, g, str(k)) for k in range(n)]
    acts = [c.choice("action", [0, 1, 2, 3, 4]) for _ in range(n)]
    cols = [c.arr([s[d] for s in ss]) for d in range(3)]
    import numpy as np
    out = transition_model(cols[0], cols[1], cols[2], c.arr(acts), g)
    for k in range(n):
        t = following(c, g, ss[k], acts[k])
        c.ensure("the documented next state", eq(out[k], flat(g, t)))
        V, L, H = g.shape
        c.ensure("is a state", And(le(0, t[0]), lt(t[0], V), le(0, t[1]), lt(t[1], L), le(0, t[2]), lt(t[2], H)))
        c.ensure("one slice later, the last absorbing", eq(t[2], vmin(ss[k][2] + 1, H - 1)))
    c.ensure("arguments kept", And(True, *[eq(cols[d][k], ss[k][d]) for k in range(n) for d in range(3)]))


@contract("C26.clip", [FMDP + "clip_position"])
def clip_(c):
    """Any integers are brought to the nearest cell of the grid."""
    from highway_env.envs.common.finite_mdp import clip_position
    g = grid(c)
    h, i, j = c.int("h", s=(-3, 9)), c.int("i", s=(-3, 9)), c.int("j", s=(-3, 9))
    V, L, H = g.shape
    c.ensure("nearest cell", eq(clip_position(h, i, j, g), flat(g, (clip(h, 0, V - 1), clip(i, 0, L - 1), clip(j, 0, H - 1)))))


@contract("C26.mdp", [FMDP + "finite_mdp", FMDP + "transition_model", FMDP + "clip_position"])
def mdp(c):
    """A grid of any size and any costs: sizes, the current state (speed index, lane, 0), and for every state and action the
    documented next state, reward and terminal flag."""
    import types
    from gym import spaces
    from highway_env.envs.common import finite_mdp as m
    c.lazy_shapes = True
    V, L, H = c.int("speeds", 1, s=(1, 5)), c.int("lanes", 1, s=(1, 5)), c.int("slices", 1, s=(1, 6))
    if c.sym:
        g = field(c, "cell", (V, L, H))
    else:
        g = c.np.array([[[c.choice("cell", [0, 0.5, 1]) for _ in range(H)] for _ in range(L)] for _ in range(V)])
    e = bare_env(c)
    asked = []
    c.patch(m, "compute_ttc_grid", lambda env, time_quantization, horizon, vehicle=None: (asked.append((env, time_quantization, horizon, vehicle)), g)[1])
    ego = bare(c, "MDPVehicle", "ego")
    k, l = index(c, "speed index", V, s=(0, 4)), index(c, "lane", L, s=(0, 4))
    ego.speed_index, ego.lane_index = k, ("a", "b", l)
    e.controlled_vehicles = [ego]
    e.action_space = spaces.Discrete(5)
    e.config["collision_reward"] = cr = c.real("collision_reward", s=(-2, 0))
    e.RIGHT_LANE_REWARD, e.HIGH_SPEED_REWARD, e.LANE_CHANGE_REWARD = rl, hs, lc = c.real("right", s=(0, 1)), c.real("high", s=(0, 1)), c.real("change", s=(-1, 0))
    got = {}

    class DMDP:
        def __init__(self, transition, reward, terminal, state=0):
            got.update(transition=transition, reward=reward, terminal=terminal, state=state)
    mod = types.ModuleType("finite_mdp.mdp")
    mod.DeterministicMDP = DMDP
    c.patch(m.importlib, "import_module", lambda name: mod)
    q, hz = c.pos("slice length", s=(.5, 2)), c.pos("horizon", s=(3, 12))
    r = m.finite_mdp(e, q, hz)
    c.ensure("of this environment's grid", And(len(asked) > 0, *[And(x[0] is e, eq(x[1], q), eq(x[2], hz), x[3] is None or x[3] is ego) for x in asked]))
    G = Shape((V, L, H))
    n = V * L * H
    T_, R_, E_ = got["transition"], got["reward"], got["terminal"]
    c.ensure("current state", eq(got["state"], flat(G, (k, l, 0))))
    c.ensure("original shape", And(len(r.original_shape) == 3, *[eq(a, b) for a, b in zip(r.original_shape, (V, L, H))]))
    c.ensure("sizes", And(*[And(len(a.shape) == len(w), *[eq(x, y) for x, y in zip(a.shape, w)]) for a, w in ((T_, (n, 5)), (R_, (n, 5)), (E_, (n,)))]))
    st = index(c, "h", V), index(c, "i", L), index(c, "j", H, s=(0, 5))
    a = c.choice("action", [0, 1, 2, 3, 4])
    s = flat(G, st)
    c.ensure("next state", eq(elem(T_, s, a), flat(G, following(c, G, st, a))))
    x = elem(g, *st)
    base = cr * x + rl * st[1] / vmax(L - 1, 1) + hs * st[0] / vmax(V - 1, 1)
    c.ensure("reward", eq(elem(R_, s, a), base + (lc if a in (0, 2) else 0)))
    c.ensure("terminal states", Iff(elem(E_, s), Or(eq(x, 1), eq(st[2], H - 1))))
