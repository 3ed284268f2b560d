from contracts._common import *
from contracts.c32 import interval

L = ITV + "LPV."


def matrix(c, name, n, m, s=(-1.5, 1.5), fact=None):
    return field(c, name, (n, m), s, fact)


def system(c, metzler):
    """A predictor of any size, a state in its interval, parameters in its polytope (more generally: each vertex with a weight
    in [0, 1]), a disturbance in its bounds: (lpv, x interval, size, x, dx, dt)."""
    from highway_env.interval import LPV
    n, vertices = c.int("states", 1, s=(1, 3)), c.int("vertices", 1, s=(1, 3))
    m, q = c.int("inputs", 1, s=(1, 2)), c.int("disturbances", 1, s=(1, 2))
    lpv = object.__new__(LPV)
    dt = c.real("dt", 0, s=(0, .5))
    if metzler and c.sym:
        lpv.a0 = matrix(c, "a", n, n, fact=lambda e, i: And(Or(eq(*i), le(0, e)), Or(ne(*i), le(0, 1 + dt * e))))
    elif metzler:
        lpv.a0 = abs(matrix(c, "a", n, n))
        for i in range(n):
            lpv.a0[i, i] = -c.real("diagonal", 0, s=(0, 2))
            c.require(le(-dt * lpv.a0[i, i], 1))
    else:
        lpv.a0 = matrix(c, "a", n, n)
    if c.sym:
        from pyvc.lazy import Lazy
        from pyvc.runtime import Many
        lpv.da = Many(vertices, lambda v: Lazy((n, n), lambda i, j: T.uf("da", v, i, j)))
        weight = lambda v: elem(weights, v)
        vertex = lambda v, i, j: T.uf("da", v, i, j)
    else:
        lpv.da = [matrix(c, "da%d" % v, n, n) for v in range(vertices)]
        weight = lambda v: weights[int(v)]
        vertex = lambda v, i, j: lpv.da[int(v)][i, j]
    weights = field(c, "weight", (vertices,), (0, 1), lambda e, i: within(e, 0, 1))
    lpv.b, lpv.u = matrix(c, "b", n, m), matrix(c, "u", m, 1)
    lpv.d = matrix(c, "d", n, q)
    w0, w, w1 = interval(c, "omega", (q,))
    lpv.omega_i = c.arr([w0, w1])
    x0, x, x1 = interval(c, "state", (n,))

    def dx(i):
        a = total(c, n, lambda j: (elem(lpv.a0, i, j) + total(c, vertices, lambda v: weight(v) * vertex(v, i, j))) * elem(x, j))
        return a + total(c, m, lambda j: elem(lpv.b, i, j) * elem(lpv.u, j, 0)) + total(c, q, lambda j: elem(lpv.d, i, j) * elem(w, j))
    return lpv, c.arr([x0, x1]), n, x, dx, dt, vertices, weight, vertex


def by_parts(c, xi, x, dt, i, n, terms):
    """Metzler predictor: each of the sums it is made of bounds its share of the step (terms at j: a0, parameters' mix, sum of
    the vertices, sum of their absolute values)."""
    pos, neg = lambda e: (absv(e) + e) / 2, lambda e: (absv(e) - e) / 2
    lo, hi = lambda j: elem(xi, 0, j), lambda j: elem(xi, 1, j)

    def low(j):
        a, mix, plain, both = terms(j)
        return mix * elem(x, j) + (both + plain) / 2 * neg(lo(j)) + (both - plain) / 2 * pos(hi(j))

    def high(j):
        a, mix, plain, both = terms(j)
        return mix * elem(x, j) - (both + plain) / 2 * pos(hi(j)) - (both - plain) / 2 * neg(lo(j))

    for j_low, j_high in inside(c, lambda j: [(low(j), high(j))]):
        c.lemma("parameters' share of one component (below)", le(0, j_low))
        c.lemma("parameters' share of one component (above)", le(j_high, 0))
    c.lemma("parameters' share (below)", le(0, dt * total(c, n, low)))
    c.lemma("parameters' share (above)", le(dt * total(c, n, high), 0))
    elem(x, i), terms(i)
    nominal = lambda f: f(i) + dt * total(c, n, lambda j: terms(j)[0] * f(j))
    c.lemma("nominal share (below)", le(nominal(lo), nominal(lambda j: elem(x, j))))
    c.lemma("nominal share (above)", le(nominal(lambda j: elem(x, j)), nominal(hi)))


def included(c, out, n, x, dx, dt, vertices, weight, vertex, more=None):
    c.ensure("shape", len(out.shape) == 2 and And(eq(out.shape[0], 2), eq(out.shape[1], n)))
    i = index(c, "any", n)
    if c.sym:
        c.pivots.append(i)
        # the weighted sum of the vertices is within the sums of their negative and positive parts, at (i, j) for any j
        sums = lambda j: [total(c, vertices, f) for f in (lambda v: weight(v) * vertex(v, i, j), lambda v: vertex(v, i, j), lambda v: absv(vertex(v, i, j)))]
        mixed, plain, both = inside(c, sums)
        c.lemma("parameters within the box (above)", le(2 * mixed, plain + both))
        c.lemma("parameters within the box (below)", le(plain - both, 2 * mixed))
        c.lemma("sum of parts", And(le(0, both + plain), le(0, both - plain)))
        if more:
            more(i, sums)
    new = elem(x, i) + dt * dx(i)
    c.ensure("lower bound", le(elem(out, 0, i), new))
    c.ensure("upper bound", le(new, elem(out, 1, i)))


@contract("C33.naive", [L + "step_naive_predictor", ITV + "intervals_product"])
def naive(c):
    """The box predictor contains the Euler step of the true system, whatever its size."""
    included_by(c, False, "step_naive_predictor")


@contract("C33.metzler", [L + "step_interval_predictor"])
def metzler(c):
    """The Metzler predictor contains the Euler step of the true system, whatever its size."""
    included_by(c, True, "step_interval_predictor")


def included_by(c, metzler, name):
    lpv, xi, *rest = system(c, metzler)
    dt = rest[3]
    was = xi.copy()
    out = getattr(lpv, name)(xi, dt)
    if not c.sym:
        c.ensure("interval untouched", eq(xi, was))
    n, x = rest[0], rest[1]
    included(c, out, *rest, more=(lambda i, sums: by_parts(c, xi, x, dt, i, n, lambda j: [elem(lpv.a0, i, j)] + list(sums(j)))) if metzler else None)


@contract("C33.step", [L + "step", ITV + "is_metzler"])
def step(c):
    """The Metzler predictor is used only for Metzler matrices (up to 1e-9); the nominal state makes an Euler step."""
    from highway_env.interval import LPV
    n, m = c.int("states", 1, s=(1, 3)), c.int("inputs", 1, s=(1, 2))
    lpv = object.__new__(LPV)
    lpv.a0 = matrix(c, "a", n, n)
    if not c.sym and c.bool("metzler"):
        lpv.a0 = abs(lpv.a0)
    lpv.b, lpv.u = matrix(c, "b", n, m), matrix(c, "u", m, 1)
    lpv.x_t = x = field(c, "x", (n,), (-3, 3))
    lpv.x_i_t = "interval"
    before = x.copy()
    dt = c.real("dt", 0, s=(0, .5))
    asked = []
    i, j = index(c, "row", n), index(c, "column", n)
    if c.sym:
        c.instances.append((i, j))
    lpv.step_interval_predictor = lambda x_i, dt: (asked.append(("metzler", x_i, dt)), "new")[1]
    lpv.step_naive_predictor = lambda x_i, dt: (asked.append(("naive", x_i, dt)), "new")[1]
    lpv.step(dt)
    c.ensure("one step of the interval", len(asked) == 1 and asked[0][1] == "interval" and lpv.x_i_t == "new")
    c.ensure("of the same duration", eq(asked[0][2], dt))
    c.ensure("Metzler predictor for Metzler matrices", Or(asked[0][0] == "naive", eq(i, j), le(-1e-9, elem(lpv.a0, i, j))))
    d = total(c, n, lambda j: elem(lpv.a0, i, j) * elem(before, j)) + total(c, m, lambda j: elem(lpv.b, i, j) * elem(lpv.u, j, 0))
    c.ensure("Euler step", len(lpv.x_t.shape) == 1 and And(eq(lpv.x_t.shape[0], n), eq(elem(lpv.x_t, i), elem(before, i) + dt * d)))
    c.ensure("state array not written to", eq(elem(x, i), elem(before, i)))


@contract("C33.polytope", [ITV + "polytope"], bounded="up to three parameters")
def polytope(c):
    """Centre: the matrix of the mean parameters; vertices: the deviation at every corner of the box.  For an affine dependence
    the matrix of any parameters of the box is the centre plus a convex combination of the vertices."""
    import itertools
    from highway_env.interval import polytope as f
    p = c.choice("parameters", [1, 2, 3] if not c.sym else [1, 2])
    lo, th, hi = interval(c, "p", (p,))
    base = matrix(c, "m", 2, 2)
    slopes = [matrix(c, "s%d" % k, 2, 2) for k in range(p)]
    if not c.sym and c.bool("much alike"):      # deviations of equal norm, sum, ... are not the same
        slopes = [(slopes[0], slopes[0].T, slopes[0][::-1])[k] for k in range(p)]
        lo, hi = [x - x for x in lo], [x - x + 1 for x in lo]
        th = [x - x + .5 for x in lo]

    def matrix_of(params):
        out = base
        for k in range(p):
            out = out + params[k] * slopes[k]
        return out
    a0, da = f(matrix_of, c.arr([list(lo), list(hi)]))
    c.ensure("centre", eq(a0, matrix_of([(lo[k] + hi[k]) / 2 for k in range(p)])))
    corners = [[(lo, hi)[b][k] for k, b in enumerate(bits)] for bits in itertools.product([0, 1], repeat=p)]
    for corner in corners:
        c.ensure("a vertex for every corner", Or(*[eq(d, matrix_of(corner) - a0) for d in da]))
    c.ensure("no other vertex", 1 <= len(da) <= len(corners) and And(*[Or(*[eq(d, matrix_of(k) - a0) for k in corners]) for d in da]))
    # convex combination: the weight of a corner is the product of its coordinates' weights
    t = [c.real("t%d" % k, 0, 1, s=(0, 1)) for k in range(p)]
    point = [lo[k] + t[k] * (hi[k] - lo[k]) for k in range(p)]
    total, mix = 0, a0
    for bits, corner in zip(itertools.product([0, 1], repeat=p), corners):
        w = 1
        for k, b in enumerate(bits):
            w = w * (t[k] if b else 1 - t[k])
        total = total + w
        mix = mix + w * (matrix_of(corner) - a0)
        c.ensure("weights of a convex combination", le(0, w))
    c.ensure("weights sum to one", eq(total, 1))
    c.ensure("any parameters of the box", eq(mix, matrix_of(point)))


@contract("C33.coordinates", [L + "change_coordinates"])
def coordinates(c):
    """The interval in the frame of the predictor (and back) contains the image of every member of the interval."""
    from highway_env.interval import LPV
    n = c.int("states", 1, s=(1, 3))
    lpv = object.__new__(LPV)
    there, back = matrix(c, "inverse", n, n), matrix(c, "transformation", n, n)
    lpv.coordinates = (back, there)
    lpv.center = field(c, "center", (n,))
    x0, x, x1 = interval(c, "state", (n,))
    i = index(c, "any", n)
    backwards, offset = c.bool("back"), c.bool("offset")
    out = lpv.change_coordinates(c.arr([x0, x1]), back=backwards, interval=True, offset=offset)
    shift = lambda j: elem(lpv.center, j) if offset else 0
    if backwards:
        image = total(c, n, lambda j: elem(back, i, j) * elem(x, j)) + shift(i)
    else:
        image = total(c, n, lambda j: elem(there, i, j) * (elem(x, j) - shift(j)))
    c.ensure("dimensions", len(out.shape) == 2)
    c.ensure("shape", And(eq(out.shape[0], 2), eq(out.shape[1], n)))
    c.ensure("lower bound", le(elem(out, 0, i), image))
    c.ensure("upper bound", le(image, elem(out, 1, i)))


@contract("C33.points", [L + "change_coordinates"])
def points(c):
    """A vector, a matrix or a list of either, of any size, seen in the frame of the predictor and back; the argument is kept."""
    from highway_env.interval import LPV
    n = c.int("states", 1, s=(1, 3))
    lpv = object.__new__(LPV)
    there, back = matrix(c, "inverse", n, n), matrix(c, "transformation", n, n)
    lpv.coordinates = (back, there) if c.bool("other coordinates") else None
    lpv.center = field(c, "center", (n,))
    kind = c.choice("kind", ["vector", "list", "matrix"])
    i, j = index(c, "any", n), index(c, "any other", n)
    backwards, offset = c.bool("back"), c.bool("offset")
    if kind == "matrix":
        x = matrix(c, "m", n, n)
        was = elem(x, i, j)
        got = elem(lpv.change_coordinates(x, matrix=True, back=backwards), i, j)
        to, fro = (back, there) if backwards else (there, back)
        image = total(c, n, lambda l: total(c, n, lambda k: elem(to, i, k) * elem(x, k, l)) * elem(fro, l, j)) if lpv.coordinates else was
        c.ensure("argument kept", eq(elem(x, i, j), was))
        c.ensure("image", eq(got, image))
        return
    xs = [field(c, "x%d" % k, (n,)) for k in range(1 if kind == "vector" else c.choice("vectors", [0, 1, 3]))]
    was = [[elem(x, i), elem(x, j)] for x in xs]
    shift = lambda j: elem(lpv.center, j) if offset else 0
    if lpv.coordinates is None:
        want = [w[0] for w in was]
    elif backwards:
        want = [total(c, n, lambda j: elem(back, i, j) * elem(x, j)) + shift(i) for x in xs]
    else:
        want = [total(c, n, lambda j: elem(there, i, j) * (elem(x, j) - shift(j))) for x in xs]
    got = lpv.change_coordinates(xs[0] if kind == "vector" else list(xs), back=backwards, offset=offset)
    got = [got] if kind == "vector" else got
    c.ensure("as many", len(got) == len(xs))
    for x, w, g, z in zip(xs, was, got, want):
        c.ensure("argument kept", And(eq(elem(x, i), w[0]), eq(elem(x, j), w[1])))
        c.ensure("image", eq(elem(g, i), z))


@contract("C33.frame", [L + "__init__", L + "update_coordinates_frame", L + "change_coordinates", ITV + "is_metzler"], bounded="up to three states")
def frame(c):
    """Whatever the change of coordinates: the predictor's system is the given one seen in the new coordinates (nominal dynamics,
    vertices, control, disturbance), its interval contains the initial one there, its nominal state is the initial one there."""
    import numpy as np
    import highway_env.interval as m
    n = c.choice("states", [1, 2, 3] if not c.sym else [1, 2])
    q = c.choice("inputs", [1, 2])
    kind = c.choice("eigenvalues", ["real", "not all real"])
    there, back = matrix(c, "inverse", n, n), matrix(c, "transformation", n, n)
    a0, das, b, d = matrix(c, "a", n, n), [matrix(c, "da%d" % k, n, n) for k in range(2)], matrix(c, "b", n, q), matrix(c, "d", n, q)
    k = matrix(c, "k", q, n) if c.bool("feedback") else None
    center = [c.real("center%d" % j, s=(-2, 2)) for j in range(n)]
    lo, x, hi = interval(c, "x", (n,))
    given = c.bool("interval given")
    x0 = list(x)
    calls = []

    def eig(a):
        calls.append(a)
        return np.array([1j] * n if kind == "not all real" else [1.] * n), back
    c.patch(np.linalg, "eig", eig)
    c.patch(np.linalg, "inv", lambda a: there)
    s = m.LPV(list(x), a0.copy(), [e.copy() for e in das], b.copy(), d.copy(), None, None, k, list(center), c.arr([list(lo), list(hi)]) if given else None)
    closed = a0 + b @ k if k is not None else a0
    plain = not calls or kind != "real"
    same = np.eye(n)
    fore, rear = (same, same) if plain else (there, back)
    centred = [0] * n if calls and kind != "real" else center
    z, w, v = [field(c, "any " + name, (size,), (-2, 2)) for name, size in (("state", n), ("disturbance", q), ("control", q))]
    share = [c.real("share%d" % i, 0, 1, s=(0, 1)) for i in range(2)]
    y = rear @ z
    old = fore @ ((closed + share[0] * das[0] + share[1] * das[1]) @ y + b @ v + d @ w)
    new = (s.a0 + share[0] * s.da[0] + share[1] * s.da[1]) @ z + s.b @ v + s.d @ w
    for i in range(n):
        c.ensure("the same dynamics", eq(old[i], new[i]))
        image = sum(fore[i, j] * (x[j] - centred[j]) for j in range(n))
        c.ensure("the nominal state", eq(s.x_t[i], image))
        c.ensure("the initial interval", And(le(s.x_i_t[0][i], image), le(image, s.x_i_t[1][i])))
    c.ensure("as given", And(*[eq(s.x0[j], x0[j]) for j in range(n)], *[eq(s.center[j], center[j]) for j in range(n)]))


@contract("C33.frame-any", [L + "__init__", L + "update_coordinates_frame", L + "change_coordinates"])
def frame_any(c):
    """Systems of any size: nominal dynamics (feedback included), vertices, control and disturbance are those given, in the new
    coordinates; so are the nominal state and the initial interval, which contains the initial state."""
    import numpy as np
    import highway_env.interval as m
    c.lazy_shapes = True
    n, q = c.int("states", 1, s=(1, 3)), c.int("inputs", 1, s=(1, 2))
    kind = c.choice("eigenvalues", ["real", "not all real", "metzler"])
    there, back = matrix(c, "inverse", n, n), matrix(c, "transformation", n, n)
    a0, da, b, d, k = matrix(c, "a", n, n), matrix(c, "da", n, n), matrix(c, "b", n, q), matrix(c, "d", n, q), matrix(c, "k", q, n)
    u, omega = matrix(c, "u", q, 1), matrix(c, "omega", 2, q)
    center = field(c, "center", (n,))
    lo, x, hi = interval(c, "x", (n,))
    c.patch(m, "is_metzler", lambda a, eps=1e-9: kind == "metzler")
    c.patch(np.linalg, "eig", lambda a: (np.array([1j, 1]) if kind == "not all real" else np.array([1., 2.]), back))
    c.patch(np.linalg, "inv", lambda a: there)
    s = m.LPV(x.copy(), a0.copy(), [da.copy()], b.copy(), d.copy(), omega.copy(), u.copy(), k.copy(), center.copy(), c.arr([lo, hi]))
    i, j = index(c, "row", n), index(c, "column", n)
    h = index(c, "input", q)
    one = lambda i, j: ite(eq(i, j), 1, 0)
    fore, rear = {"real": ((lambda i, j: elem(there, i, j)), (lambda i, j: elem(back, i, j))), "metzler": (one, one), "not all real": (None, None)}[kind]
    closed = lambda i, j: elem(a0, i, j) + total(c, q, lambda l: elem(b, i, l) * elem(k, l, j))
    seen = lambda f: (lambda i, j: total(c, n, lambda l: total(c, n, lambda r: fore(i, r) * f(r, l)) * rear(l, j))) if fore else f
    c.ensure("nominal dynamics", eq(elem(s.a0, i, j), seen(closed)(i, j)))
    vertex = s.da[0]
    c.ensure("vertices", And(len(s.da) == 1, eq(elem(vertex, i, j), seen(lambda i, j: elem(da, i, j))(i, j))))
    for name, own, given in (("control", s.b, b), ("disturbance", s.d, d)):
        c.ensure(name, eq(elem(own, i, h), total(c, n, lambda l: fore(i, l) * elem(given, l, h)) if fore else elem(given, i, h)))
    image = total(c, n, lambda l: fore(i, l) * (elem(x, l) - elem(center, l))) if fore else elem(x, i)
    c.ensure("the nominal state", eq(elem(s.x_t, i), image))
    c.ensure("the initial interval", And(le(elem(s.x_i_t, 0, i), image), le(image, elem(s.x_i_t, 1, i))))
    c.ensure("as given", And(eq(elem(s.x0, i), elem(x, i)), eq(elem(s.center, i), elem(center, i)), eq(elem(s.u, h, 0), elem(u, h, 0)),
                             eq(elem(s.omega_i, 0, h), elem(omega, 0, h)), eq(elem(s.omega_i, 1, h), elem(omega, 1, h))))


@contract("C33.defaults", [L + "__init__", L + "step", L + "step_naive_predictor", L + "step_interval_predictor"])
def defaults(c):
    """Systems of any size: what is not given takes no part: without control, disturbance, feedback, centre or initial interval a
    predictor steps as one given zeros in their place (and the initial state as the interval)."""
    import numpy as np
    import highway_env.interval as m
    c.lazy_shapes = True
    n, q = c.int("states", 1, s=(1, 3)), 1
    metzler, built = c.bool("metzler"), []
    c.patch(m, "is_metzler", lambda a, eps=1e-9: metzler or not built)      # the frame is C33.frame's business
    dt = c.pos("dt", s=(.1, 1))
    a0, da = matrix(c, "a", n, n), matrix(c, "da", n, n)
    lo, x, hi = interval(c, "x", (n,))
    b, d = matrix(c, "b", n, q), matrix(c, "d", n, q)
    u = matrix(c, "u", q, 1)
    wlo, w, whi = interval(c, "w", (q,))

    def zeros(*shape):
        if c.sym:
            from pyvc.lazy import Lazy
            return Lazy(shape, lambda *i: T.ZERO)
        return np.zeros(shape)
    full = dict(b=b, d=d, omega_i=c.arr([wlo, whi]), u=u, k=zeros(q, n), center=zeros(n), x_i=c.arr([lo, hi]))
    none = dict(b=zeros(n, q), d=zeros(n, q), omega_i=zeros(2, q), u=zeros(q, 1), k=zeros(q, n),
                center=zeros(n), x_i=c.arr([x, x]))
    left_out = [set(full), {"b", "u"}, {"d", "omega_i"}, {"u"}, {"omega_i"}, {"b"}, {"d"}, {"x_i"}, {"k", "center"}]
    out = left_out[c.choice("left out", list(range(len(left_out))))]
    i = index(c, "any", n)
    made = [m.LPV(x.copy(), a0.copy(), [da.copy()], **{o: v.copy() for o, v in full.items() if o not in out}),
            m.LPV(x.copy(), a0.copy(), [da.copy()], **{o: (none[o] if o in out else v).copy() for o, v in full.items()})]
    built.append(True)
    for s in made:
        s.step(dt)
    c.ensure("the nominal state", eq(elem(made[0].x_t, i), elem(made[1].x_t, i)))
    for k in (0, 1):
        c.ensure("the interval", eq(elem(made[0].x_i_t, k, i), elem(made[1].x_i_t, k, i)))
