import itertools

from contracts._common import *

U = "highway_env/utils.py:"


def linalg(c, **stubs):
    """Assumed contracts of numpy.linalg functions, in place of the functions (symbolic runs only)."""
    if c.sym:
        for name, f in stubs.items():
            c.patch(c.np.linalg, name, f)


def table(c, name, p, s=(-2, 2)):
    return c.arr([[c.real("%s%d%d" % (name, i, j), s=s) for j in range(p)] for i in range(p)])


@contract("C34.ellipsoid", [U + "confidence_ellipsoid"])
def ellipsoid(c):
    """The estimate solves the regularised normal equations of the data (of any size); the Gramian is symmetric and at least
    the regularisation."""
    from highway_env.utils import confidence_ellipsoid as f
    p = c.choice("parameters", [1, 2, 3])
    n = c.int("samples", 1, s=(1, 6))
    phi, y = field(c, "feature", (n, p)), field(c, "output", (n,))
    lam, sigma = c.pos("lambda", s=(1e-3, 2)), c.pos("sigma", s=(.05, 2))
    delta, bound = c.real("delta", s=(.01, .9)), c.real("bound", 0, s=(0, 5))
    c.require(And(lt(0, delta), le(delta, 1)))
    direction = [c.real("direction%d" % k, s=(-1, 1)) for k in range(p)]
    given = []

    def definite(g):
        q = sum(direction[a] * g[a][b] * direction[b] for a in range(p) for b in range(p))
        given.append(g)
        c.ensure("symmetric", And(*[eq(g[a][b], g[b][a]) for a in range(p) for b in range(a)]) if p > 1 else True)
        c.ensure("at least the regularisation", le(lam * sum(d * d for d in direction), q))

    def inv(g):
        definite(g)
        m = table(c, "inverse", p)
        inverse.append(m)
        return m

    def det(g):
        definite(g)
        return lam ** p * (1 + c.real("excess", 0))      # each eigenvalue is at least lambda
    inverse = []
    linalg(c, inv=inv, det=det)
    data = {"features": phi if c.sym else list(phi), "outputs": y if c.sym else list(y)}
    theta, g, beta = f(data, lambda_=lam, delta=delta, sigma=sigma, param_bound=bound)
    if not c.sym:
        definite(g)
    gram = lambda a, b: total(c, n, lambda k: elem(phi, k, a) * elem(phi, k, b)) / sigma + (lam if a == b else 0)
    c.ensure("Gramian", And(g.shape == (p, p), *[eq(g[a][b], gram(a, b)) for a in range(p) for b in range(p)]))
    z = [total(c, n, lambda k: elem(phi, k, a) * elem(y, k)) / sigma for a in range(p)]
    c.ensure("estimate", theta.shape == (p,))
    if c.sym:
        m = inverse[0]      # assumed of numpy.linalg.inv: G (M z) = z for every vector z
        for a in range(p):
            c.require(eq(sum(g[a][k] * sum(m[k][b] * z[b] for b in range(p)) for k in range(p)), z[a]))
    for a in range(p):
        c.ensure("normal equations", eq(sum(g[a][b] * theta[b] for b in range(p)), z[a]))
    c.ensure("radius", And(le(0, beta), le(c.np.sqrt(lam * p) * bound, beta)))


@contract("C34.polytope", [U + "confidence_polytope"])
def polytope(c):
    """The estimate and every vertex of its confidence region lie in the prior box, whatever the data say."""
    import highway_env.utils as utils
    p = c.choice("parameters", [1, 2, 3])
    lo = [c.real("min%d" % k, s=(-3, 1)) for k in range(p)]
    hi = [lo[k] + c.real("width%d" % k, 0, s=(0, 3)) for k in range(p)]
    box = c.arr([lo, hi])
    data = {"features": "the features", "outputs": "the outputs"}
    theta, beta = c.vec("theta", p, s=(-5, 5)), c.real("beta", 0, s=(0, 10))
    asked = []
    if c.sym:
        g = table(c, "g", p)

        def eig(m):
            values = c.vec("value", p)
            for v in values:
                c.require(lt(0, v))
            return values, table(c, "vector", p)
        linalg(c, eig=eig, inv=lambda m: table(c, "inverse", p))
    else:
        root = table(c, "root", p, s=(-1, 1))
        g = root @ root.T + .1 * c.np.identity(p)
    c.patch(utils, "confidence_ellipsoid", lambda data, lambda_=None, delta=None, sigma=None, param_bound=None:
            (asked.append((data, param_bound)), (theta.copy(), g, beta))[1])
    out, d, gram, radius = utils.confidence_polytope(data, box)
    c.ensure("the data", len(asked) == 1 and asked[0][0] is data)
    c.ensure("bound of the parameters", And(*[le(absv(b), asked[0][1]) for b in lo + hi]))
    c.ensure("region of the estimate", gram is g and radius is beta)
    c.ensure("shape", out.shape == (p,) and d.shape == (2 ** p, p))
    for k in range(p):
        c.ensure("estimate in the box", within(out[k], lo[k], hi[k]))
        c.ensure("nearest to the data", And(Implies(within(theta[k], lo[k], hi[k]), eq(out[k], theta[k])),
                                            Implies(lt(theta[k], lo[k]), eq(out[k], lo[k])), Implies(lt(hi[k], theta[k]), eq(out[k], hi[k]))))
        for v in range(2 ** p):
            c.ensure("vertex in the box", within(out[k] + d[v][k], lo[k], hi[k]))
    c.ensure("box untouched", eq(box, c.arr([lo, hi])))


def rotation(c, p):
    """Any orthogonal matrix (up to the direction of its columns)."""
    np = c.np
    if p == 1:
        m = c.arr([[1]])
    else:
        a = c.real("angle0")
        m = c.arr([[cos(a), -sin(a)], [sin(a), cos(a)]])
    if p == 3:
        b, g = c.real("angle1"), c.real("angle2")
        z = c.arr([[cos(a), -sin(a), 0], [sin(a), cos(a), 0], [0, 0, 1]])
        y = c.arr([[cos(b), 0, sin(b)], [0, 1, 0], [-sin(b), 0, cos(b)]])
        x = c.arr([[1, 0, 0], [0, cos(g), -sin(g)], [0, sin(g), cos(g)]])
        m = np.dot(np.dot(z, y), x)
    return m


@contract("C34.region", [U + "confidence_polytope"])
def region(c):
    """Where the prior box does not cut it, the region is a box centred on the estimate whose half-axes are orthogonal for the
    Gramian and have the ellipsoid's radius as their length: it contains the confidence ellipsoid."""
    import highway_env.utils as utils
    p = c.choice("parameters", [1, 2, 3])
    wide = c.pos("box") if c.sym else 1e9
    theta, beta = c.vec("theta", p, s=(-5, 5)), c.real("beta", 0, s=(0, 10))
    box = c.arr([[t - wide for t in theta], [t + wide for t in theta]])
    signs = list(itertools.product([-1, 1], repeat=p))
    if c.sym:
        # the Gramian by its eigenvectors and eigenvalues (1 / w^2), which numpy.linalg.eig is assumed to return
        pp = rotation(c, p)
        turned = c.arr([[pp[j][i] for j in range(p)] for i in range(p)])
        w = [c.real("w%d" % i) for i in range(p)]
        c.require(And(*[ne(x, 0) for x in w]))
        w = [absv(x) for x in w]
        values = c.arr([1 / (x * x) for x in w])
        g = c.arr([[sum(pp[i][k] * values[k] * pp[j][k] for k in range(p)) for j in range(p)] for i in range(p)])
        linalg(c, eig=lambda m: (values, pp), inv=lambda m: turned)
        axis = [[beta * pp[k][i] * w[i] for k in range(p)] for i in range(p)]
        want = [[sum(h[i] * axis[i][k] for i in range(p)) for k in range(p)] for h in signs]
        for x in want:
            c.require(And(*[le(absv(y), wide) for y in x]))
    else:
        root = table(c, "root", p, s=(-1, 1))
        g = root @ root.T + .1 * c.np.identity(p)
    c.patch(utils, "confidence_ellipsoid", lambda data, lambda_=None, delta=None, sigma=None, param_bound=None: (theta.copy(), g, beta))
    out, d, _, _ = utils.confidence_polytope({}, box)
    c.ensure("centred on the estimate", eq(out, theta))
    if c.sym:
        for v in range(2 ** p):
            c.lemma("not cut", And(*[eq(d[v][k], want[v][k]) for k in range(p)]))
    else:
        top = signs.index((1,) * p)
        axis = [[(d[top][k] - d[signs.index(tuple(-1 if j == i else 1 for j in range(p)))][k]) / 2 for k in range(p)] for i in range(p)]
        for v, h in enumerate(signs):
            c.ensure("corners of a box", And(*[eq(d[v][k], sum(h[i] * axis[i][k] for i in range(p))) for k in range(p)]))
    for i in range(p):
        for j in range(p):
            q = sum(axis[i][a] * g[a][b] * axis[j][b] for a in range(p) for b in range(p))
            c.ensure("half-axes of the ellipsoid", eq(q, beta * beta if i == j else 0))
