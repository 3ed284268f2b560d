"""Discharging: is (hypotheses => goal) valid over the reals?

Order: canonical form, z3 (python API), then cvc5 as an independent second opinion for what z3 leaves unknown.
Applications (sin, sqrt, floor, ...) are replaced by fresh variables plus sound axioms about them; every axiom is a true
statement about the real function, so 'unsat' is conclusive and 'sat' may be spurious (it is replayed on the real code).
"""
import subprocess
import tempfile
import os
import time
from fractions import Fraction

from .z3load import z3
from . import terms as T
from .closed import decide
from .terms import R, B, _ATOMS

STATS = {"normal": 0, "z3": 0, "cvc5": 0, "time": 0.0, "queries": 0}
CVC5 = "/usr/bin/cvc5"


class Enc:
    """One encoding context: terms -> z3, collecting the atoms met so that their axioms can be added."""

    def __init__(self):
        self.av = {}         # atom id -> z3 expr
        self.todo = []
        self.axioms = []
        self.bv = {}
        self.names = {}      # z3 var name -> ('var', name) for models
        self.by_fn = {}

    def q(self, f):
        f = Fraction(f)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)

    def num(self, p):
        if not p.m:
            return z3.RealVal(0)
        parts = []
        for mm, c in p.m.items():
            fs = []
            den = []
            for i, e in mm:
                v = self.atom(i)
                if e > 0:
                    fs.extend([v] * e)
                else:
                    den.append((i, -e))
            t = None
            for i, e in den:
                iv = self.inv_atom(i)
                fs.extend([iv] * e)
            if c != 1 or not fs:
                fs = [self.q(c)] + fs
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            parts.append(t)
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def inv_atom(self, i):
        """1/atom as a variable."""
        key = ("i", i)
        if key not in self.av:
            v = z3.Real("inv!%d" % i)
            self.av[key] = v
            a = self.atom(i)
            self.axioms.append(z3.Implies(a != 0, v * a == 1))
            self.axioms.append(z3.Implies(a > 0, v > 0))
            self.axioms.append(z3.Implies(a < 0, v < 0))
        return self.av[key]

    def atom(self, i):
        if i in self.av:
            return self.av[i]
        a = _ATOMS[i]
        if a.isint:
            iv = z3.Int("a!%d" % i)
            v = z3.ToReal(iv)
        else:
            v = z3.Real("a!%d" % i)
        self.av[i] = v
        if a.kind == "var":
            self.names[i] = a.name
            return v
        if a.kind == "pi":
            self.axioms.append(z3.And(v > self.q(Fraction("3.14159265358979")), v < self.q(Fraction("3.1415926535898"))))
            return v
        self._axioms(i, a, v)
        return v

    def _axioms(self, i, a, v):
        ax = self.axioms
        n = a.name
        if n == "ite":
            c = self.bool(a.args[0])
            ax.append(v == z3.If(c, self.num(a.args[1]), self.num(a.args[2])))
            return
        xs = [self.num(x) for x in a.args]
        key = (a.kind, n, len(xs))
        prev = self.by_fn.setdefault(key, [])
        x = xs[0] if xs else None
        if a.kind == "uf" or n in ("pow", "atan2", "turns"):
            for ys, w in prev[:14]:
                ax.append(z3.Implies(z3.And(*[p == q for p, q in zip(xs, ys)]), v == w))
        elif n in ("sin", "cos", "round", "floor", "inv", "sqrt"):
            if n in ("sin", "cos"):
                for ys, w in prev[:6]:
                    ax.append(z3.Implies(xs[0] == ys[0], v == w))
        if n in ("atan", "asin", "exp", "sqrt", "log"):
            for ys, w in prev[:8]:
                ax.append((xs[0] < ys[0]) == (v < w) if n not in ("asin", "sqrt", "log") else
                          z3.Implies(z3.And(*self._dom(n, xs[0]), *self._dom(n, ys[0])), (xs[0] < ys[0]) == (v < w)))
        if n in ("floor", "round"):
            for ys, w in prev[:8]:
                ax.append(z3.Implies(xs[0] <= ys[0], v <= w))
                ax.append(z3.Implies(xs[0] >= ys[0], v >= w))
        prev.append((xs, v))
        if a.kind == "uf":
            return
        pi = self.atom(T.PI_ID) if n in ("atan", "asin", "atan2", "sin", "cos", "turns") else None
        if n in ("sin", "cos"):
            other = T.atom("fn", "cos" if n == "sin" else "sin", a.args)
            o = self.atom(other.id) if other.id not in self.av else self.av[other.id]
            s, c = (v, o) if n == "sin" else (o, v)
            if n == "sin":
                ax.append(s * s + c * c == 1)
            ax.append(z3.And(v >= -1, v <= 1))
            if n == "sin":
                ax.append(z3.Implies(z3.And(x > 0, x < pi), v > 0))
                ax.append(z3.Implies(z3.And(x < 0, x > -pi), v < 0))
                ax.append(z3.Implies(x == 0, v == 0))
            else:
                ax.append(z3.Implies(z3.And(x > -pi / 2, x < pi / 2), v > 0))
                ax.append(z3.Implies(x == 0, v == 1))
        elif n == "atan":
            ax += [v > -pi / 2, v < pi / 2, (x > 0) == (v > 0), (x < 0) == (v < 0), (x >= 1) == (v >= pi / 4),
                   (x <= -1) == (v <= -pi / 4), (x > 1) == (v > pi / 4), (x < -1) == (v < -pi / 4)]
        elif n == "asin":
            dom = z3.And(x >= -1, x <= 1)
            ax += [z3.Implies(dom, z3.And(v >= -pi / 2, v <= pi / 2, (x > 0) == (v > 0), (x < 0) == (v < 0),
                                          (x == 1) == (v == pi / 2), (x == -1) == (v == -pi / 2)))]
        elif n == "atan2":
            y, w = xs
            ax += [v > -pi, v <= pi, z3.Implies(y > 0, z3.And(v > 0, v < pi)), z3.Implies(y < 0, v < 0),
                   z3.Implies(z3.And(y == 0, w >= 0), v == 0), z3.Implies(z3.And(y == 0, w < 0), v == pi),
                   z3.Implies(w > 0, z3.And(v > -pi / 2, v < pi / 2)),
                   z3.Implies(z3.And(w < 0, y >= 0), v > pi / 2), z3.Implies(z3.And(w < 0, y < 0), v < -pi / 2),
                   z3.Implies(z3.And(w == 0, y > 0), v == pi / 2), z3.Implies(z3.And(w == 0, y < 0), v == -pi / 2)]
        elif n == "sqrt":
            ax += [z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)), z3.Implies(x > 0, v > 0)]
        elif n == "abs":
            ax += [v == z3.If(x >= 0, x, -x)]
        elif n == "inv":
            ax += [z3.Implies(x != 0, x * v == 1), z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0)]
        elif n == "floor":
            ax += [v <= x, x < v + 1]
        elif n == "round":
            ax += [v - x <= self.q(Fraction(1, 2)), x - v <= self.q(Fraction(1, 2))]
        elif n == "turns":
            ax += [x + 2 * pi * v > -pi, x + 2 * pi * v <= pi]
        elif n == "exp":
            ax += [v > 0, (x > 0) == (v > 1), (x < 0) == (v < 1), v >= 1 + x]
        elif n == "log":
            ax += [z3.Implies(x > 0, z3.And((x > 1) == (v > 0), (x < 1) == (v < 0), v <= x - 1))]
        elif n == "pow":
            y = xs[1]
            ax += [z3.Implies(x >= 0, v >= 0), z3.Implies(x > 0, v > 0), z3.Implies(z3.And(x == 0, y > 0), v == 0),
                   z3.Implies(x == 1, v == 1), z3.Implies(y == 0, v == 1), z3.Implies(y == 1, v == x),
                   z3.Implies(z3.And(x > 1, y > 0), v > 1), z3.Implies(z3.And(x < 1, x >= 0, y > 0), v < 1)]
            for ys, w in prev[:-1][:8]:
                ax.append(z3.Implies(z3.And(y == ys[1], y > 0, x >= 0, ys[0] >= 0), (x < ys[0]) == (v < w)))

    def _dom(self, n, x):
        if n == "asin":
            return [x >= -1, x <= 1]
        if n == "sqrt":
            return [x >= 0]
        if n == "log":
            return [x > 0]
        return []

    def bool(self, b):
        k = b.kind
        if k == "const":
            return z3.BoolVal(b.args[0])
        if k in ("le", "lt", "eq"):
            lhs, rhs = self._sides(b.args[0])
            if k == "lt" and b.args[0].is_int_valued():
                return lhs <= -1
            return lhs <= rhs if k == "le" else lhs < rhs if k == "lt" else lhs == rhs
        if k == "var":
            v = self.bv.get(b.args[0])
            if v is None:
                v = self.bv[b.args[0]] = z3.Bool("b!" + b.args[0])
            return v
        if k == "not" and b.args[0].kind == "eq" and b.args[0].args[0].is_int_valued():
            t = self.num(b.args[0].args[0])
            return z3.Or(t <= -1, t >= 1)
        if k == "not":
            return z3.Not(self.bool(b.args[0]))
        xs = [self.bool(x) for x in b.args]
        return z3.And(*xs) if k == "and" else z3.Or(*xs)

    def _sides(self, p):
        # clear the negative exponents of atoms known nonzero is left to z3 (guarded axioms)
        return self.num(p), z3.RealVal(0)


class LinEnc(Enc):
    """The linear abstraction: every product of atoms is an independent unknown (a relaxation, so only 'unsat' counts)."""
    nonlinear = False

    def num(self, p):
        if not p.m:
            return z3.RealVal(0)
        parts = []
        for mm, c in p.m.items():
            if not mm:
                t = None
            elif len(mm) == 1 and mm[0][1] == 1:
                t = self.atom(mm[0][0])
            else:
                self.nonlinear = True
                t = self.av.get(("m", mm))
                if t is None:
                    t = self.av[("m", mm)] = z3.Real("m!%d" % len(self.av))
                    if all(e % 2 == 0 for _, e in mm):
                        self.axioms.append(t >= 0)
            parts.append(self.q(c) if t is None else t if c == 1 else self.q(c) * t)
        return parts[0] if len(parts) == 1 else z3.Sum(parts)


class Shared(LinEnc):
    """The linear abstraction of all queries of this process: every condition and atom is encoded once, with the atoms it
    needs; a query takes the axioms of the atoms it needs (and of their pairs)."""
    PAIRED = {"pow": 14, "atan2": 14, "turns": 14, "sin": 6, "cos": 6, "atan": 8, "asin": 8, "exp": 8, "sqrt": 8, "log": 8,
              "floor": 8, "round": 8}

    def __init__(self):
        super().__init__()
        self.memo, self.need, self.own, self.pairs, self.xs = {}, [set()], {}, {}, {}
        self.deps = {}

    def atom(self, i):
        self.need[-1].add(i)
        if i not in self.av:
            kept = self.axioms, self.by_fn
            self.axioms, self.by_fn = [], {}
            self.need.append(set())
            super().atom(i)
            a = _ATOMS[i]
            self.xs[i] = [self.num(x) for x in a.args] if self.limit(a) else None
            self.own[i], self.deps[i] = self.axioms, self.need.pop()
            self.axioms, self.by_fn = kept
        return self.av[i]

    def limit(self, a):
        return 14 if a.kind == "uf" else self.PAIRED.get(a.name, 0) if a.kind == "fn" else 0

    def num(self, p):
        if not p.m:
            return z3.RealVal(0)
        parts = []
        for mm, c in p.m.items():
            if not mm:
                t = None
            elif len(mm) == 1 and mm[0][1] == 1:
                t = self.atom(mm[0][0])
            else:
                key = ("m", mm)
                self.need[-1].add(key)
                t = self.av.get(key)
                if t is None:
                    t = self.av[key] = z3.Real("m!%d" % len(self.av))
                    self.own[key], self.deps[key] = [t >= 0] if all(e % 2 == 0 for _, e in mm) else [], ()
            parts.append(self.q(c) if t is None else t if c == 1 else self.q(c) * t)
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def bool(self, b):
        got = self.memo.setdefault(hash(b), [])
        for k, f, need in got:
            if k.same(b):
                break
        else:
            self.need.append(set())
            f = super().bool(b)
            need = self.need.pop()
            got.append((b, f, need))
        self.need[-1] |= need
        return f

    def query(self, bools):
        """(conditions, axioms, is there a product?)"""
        self.need.append(set())
        fs = [self.bool(b) for b in bools]
        todo, used = list(self.need.pop()), set()
        while todo:
            i = todo.pop()
            if i not in used:
                used.add(i)
                todo.extend(self.deps[i])
        atoms = sorted(i for i in used if not isinstance(i, tuple))
        axioms, groups = [], {}
        for i in atoms:
            axioms += self.own[i]
            a = _ATOMS[i]
            n = self.limit(a)
            if n:
                g = groups.setdefault((a.kind, a.name, len(a.args)), [])
                for j in g[:n]:
                    axioms += self.pair(i, j)
                g.append(i)
        for i in used:
            if isinstance(i, tuple):
                axioms += self.own[i]
        return fs, axioms, len(atoms) < len(used)

    def pair(self, i, j):
        if (i, j) not in self.pairs:
            kept = self.axioms, self.by_fn
            a = _ATOMS[i]
            self.axioms, self.by_fn = [], {(a.kind, a.name, len(a.args)): [(self.xs[j], self.av[j])]}
            self.need.append(set())
            self._axioms(i, a, self.av[i])
            self.need.pop()
            mine = {x.get_id() for x in self.own[i]}
            self.pairs[i, j] = [x for x in self.axioms if x.get_id() not in mine]
            self.axioms, self.by_fn = kept
        return self.pairs[i, j]


_SHARED = []


def linear_unsat(bools, timeout_ms=1000, always=False):
    t0 = time.time()
    if not _SHARED or len(_SHARED[0].memo) > 60000:
        _SHARED[:] = [Shared()]
    fs, axioms, nonlinear = _SHARED[0].query(bools)
    if not nonlinear and not always:
        return False
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*fs)
    r = str(s.check())
    if r != "unsat":
        s.add(*axioms)
        r = str(s.check())
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    return r == "unsat"


def model_env(enc, m):
    env = {}
    for i, name in enc.names.items():
        v = m.eval(enc.av[i], model_completion=True)
        env[name] = _val(v)
    for name, bv in enc.bv.items():
        env[name] = z3.is_true(m.eval(bv, model_completion=True))
    return env


def _val(v):
    try:
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_int_value(v):
            return float(v.as_long())
        if z3.is_algebraic_value(v):
            v = v.approx(15)
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    except Exception:
        pass
    try:
        return float(v.as_fraction())
    except Exception:
        return 0.0


_FEAS = {}
FEASIBLE_MS = [None]        # a contract's own limit for the feasibility of branches (after a linear test); 0: linear test only


def relevant(hyps, goal_terms):
    """Hypotheses sharing (transitively) variables with the goal: dropping the others only weakens the hypotheses."""
    want = set()
    for g in goal_terms:
        want |= set(T.free_vars(g))
    pool = [(h, set(T.free_vars(h))) for h in hyps]
    out, changed = [], True
    used = [False] * len(pool)
    while changed:
        changed = False
        for k, (h, fv) in enumerate(pool):
            if not used[k] and (fv & want or not fv):
                used[k] = True
                want |= fv
                changed = True
    return [h for k, (h, _) in enumerate(pool) if used[k]]


def check_sat(bools, timeout_ms=1500, want_model=False):
    """'sat' / 'unsat' / 'unknown' of a conjunction."""
    t0 = time.time()
    STATS["queries"] += 1
    e = Enc()
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    fs = [e.bool(b) for b in bools]
    for f in fs:
        s.add(f)
    n = 0
    # axioms can mention new atoms, so iterate
    while n < len(e.axioms):
        s.add(e.axioms[n])
        n += 1
    r = str(s.check())
    STATS["time"] += time.time() - t0
    if want_model:
        return r, (model_env(e, s.model()) if r == "sat" else None), s
    return r


def feasible(pc, extra, timeout_ms=700):
    """Can pc and extra hold together? Unknown counts as yes."""
    c = T.and_(*pc, extra)
    if c.kind == "const":
        return c.args[0]
    key = c
    h = hash(c)
    for k, v in _FEAS.get(h, ()):
        if k.same(c):
            return v
    rel = relevant(pc, [extra])
    r = check_sat(rel + [extra], timeout_ms) if FEASIBLE_MS[0] is None else \
        "unsat" if linear_unsat(rel + [extra], 300, True) else \
        check_sat(rel + [extra], FEASIBLE_MS[0]) if FEASIBLE_MS[0] else "unknown"
    v = r != "unsat"
    _FEAS.setdefault(h, []).append((c, v))
    return v


def linear_prefilter(goal):
    return False


class Result:
    def __init__(self, status, backend, env=None, secs=0.0, note=""):
        self.status, self.backend, self.env, self.secs, self.note = status, backend, env, secs, note


_PROVED = {}


def prove(pc, goal, timeout_ms=8000, use_cvc5=True):
    """Is goal implied by pc?"""
    t0 = time.time()
    goal = T.lift_b(goal)
    if goal.kind == "const" and goal.args[0]:
        STATS["normal"] += 1
        return Result("proved", "normal-form")
    if _closed_eq(goal):
        STATS["normal"] += 1
        return Result("proved", "normal-form", secs=time.time() - t0)
    for h in pc:
        if h.same(goal):
            STATS["normal"] += 1
            return Result("proved", "normal-form", secs=time.time() - t0)
    key = hash((goal, tuple(pc)))
    for (g2, pc2, res) in _PROVED.get(key, ()):
        if g2.same(goal) and len(pc) == len(pc2) and all(a.same(b) for a, b in zip(pc, pc2)):
            return res
    if T.has_fn(goal, ("Sum",)):
        if linear_unsat(relevant(pc, [goal]) + [T.not_(goal)]):
            STATS["z3"] += 1
            return Result("proved", "z3 (linear abstraction)", secs=time.time() - t0)
        res = _prove(list(pc) + sum_lemmas(pc, goal, timeout_ms), goal, timeout_ms, use_cvc5, t0)
        if res.status == "refuted":         # sums are known through the one rule only
            res = Result("unknown", res.backend, env=res.env, secs=res.secs)
    else:
        res = _prove(pc, goal, timeout_ms, use_cvc5, t0)
    _PROVED.setdefault(key, []).append((goal, list(pc), res))
    return res


def comparisons(b, out=None):
    out = [] if out is None else out
    if b.kind in ("le", "lt", "eq"):
        out.append(b)
    elif b.kind not in ("const", "var"):
        for x in b.args:
            comparisons(x, out)
    return out


PIVOTS = []      # positions (terms) at which a summand may be singled out


def sum_lemmas(pc, goal, timeout_ms):
    """Facts about the sums in the goal: if the summands' combination h has h(k) <= 0 for all k (other than a named position
    p), the combination of the sums is <= 0 (<= h(p))."""
    from . import lazy
    facts = []
    for cmp_ in comparisons(goal):
        p = cmp_.args[0]
        groups = {}
        for mm, co in p.m.items():
            ss = [(i, e) for i, e in mm if _ATOMS[i].kind == "uf" and _ATOMS[i].name == "Sum"]
            if len(ss) != 1 or ss[0][1] != 1:
                continue
            a = _ATOMS[ss[0][0]]
            rest = R({tuple(x for x in mm if x[0] != ss[0][0]): co})
            d, n, body = a.args
            name = "bound!%d" % int(d.const())
            if name in T.free_vars(rest):
                continue
            g = groups.setdefault((int(d.const()), repr(n)), [n, name, T.ZERO, T.ZERO])
            g[2] = g[2] + rest * body
            g[3] = g[3] + rest * lazy._ATOM(ss[0][0])
        for n, name, h, s in groups.values():
            k = T.var(name, True)
            here = list(pc) + [T.le(T.ZERO, k), T.lt(k, n)]
            for sign in (1, -1):
                hs, st = h * sign, s * sign
                need = strip(here, hs, timeout_ms)
                if prove(here, T.le(need, T.ZERO), timeout_ms).status == "proved":
                    facts.append(T.le(st, T.ZERO))
                    continue
                for q in PIVOTS:
                    if name in T.free_vars(q) or not prove(list(pc), T.and_(T.le(T.ZERO, q), T.lt(q, n)), 1000).status == "proved":
                        continue
                    if prove(here + [T.not_(T.eq(k, q))], T.le(need, T.ZERO), timeout_ms).status == "proved":
                        facts.append(T.le(st, T.subst(hs, {name: q})))
                        break
    return facts


def strip(pc, p, timeout_ms):
    """p without the common factors known to be non-negative (p <= 0 follows from what is left being <= 0)."""
    if not p.m:
        return p
    common = None
    for mm in p.m:
        own = {i: e for i, e in mm if e > 0}
        common = own if common is None else {i: min(e, own[i]) for i, e in common.items() if i in own}
    for i, e in (common or {}).items():
        a = T._atom_term(_ATOMS[i])
        if prove(pc, T.le(T.ZERO, a), 1000).status == "proved":
            p = R({tuple((j, f - e) if j == i else (j, f) for j, f in mm if j != i or f != e): co for mm, co in p.m.items()})
    return p


def _closed_eq(goal):
    if goal.kind == "eq":
        return T.is_zero(goal.args[0])
    if goal.kind == "and":
        return all(_closed_eq(g) for g in goal.args)
    return False


def _prove(pc, goal, timeout_ms, use_cvc5, t0):
    if goal.kind == "and":
        last = None
        worst = None
        for g in goal.args:
            r = prove(pc, g, timeout_ms, use_cvc5)
            if r.status == "refuted":
                return r
            if r.status != "proved":
                worst = r
            last = r
        return worst or Result("proved", last.backend, secs=time.time() - t0)
    if decide(goal):
        STATS["normal"] += 1
        return Result("proved", "interval arithmetic", secs=time.time() - t0)
    ng = T.not_(goal)
    rel = relevant(pc, [goal])
    if linear_unsat(rel + [ng]):
        STATS["z3"] += 1
        return Result("proved", "z3 (linear abstraction)", secs=time.time() - t0)
    # first without irrelevant hypotheses
    splits = any(T.has_fn(f, ("abs", "ite")) for f in rel + [ng])
    r, env, s = check_sat(rel + [ng], min(timeout_ms, 1500) if splits else timeout_ms, want_model=True)
    if r == "unsat":
        STATS["z3"] += 1
        return Result("proved", "z3", secs=time.time() - t0)
    if r == "unknown" and splits:
        if split_unsat(rel + [ng], time.time() + timeout_ms / 1000):
            STATS["z3"] += 1
            return Result("proved", "z3 (case split)", secs=time.time() - t0)
        r, env, s = check_sat(rel + [ng], timeout_ms, want_model=True)
        if r == "unsat":
            STATS["z3"] += 1
            return Result("proved", "z3", secs=time.time() - t0)
    if r == "unknown":
        # help nonlinear reasoning: rewrite hypotheses that are equalities var == term
        sub = substitute_eqs(rel, ng)
        if sub is not None:
            if _closed_neg(sub[1]):
                STATS["normal"] += 1
                return Result("proved", "normal-form", secs=time.time() - t0)
            r2, env2, s2 = check_sat(sub[0] + [sub[1]], timeout_ms, want_model=True)
            if r2 == "unsat":
                STATS["z3"] += 1
                return Result("proved", "z3", secs=time.time() - t0)
        if use_cvc5:
            r3 = cvc5_check(s, timeout_ms)
            if r3 == "unsat":
                STATS["cvc5"] += 1
                return Result("proved", "cvc5", secs=time.time() - t0)
        return Result("unknown", "z3+cvc5", secs=time.time() - t0)
    # sat: full path condition for a complete model
    if len(rel) != len(pc):
        r4, env4, _ = check_sat(list(pc) + [ng], timeout_ms, want_model=True)
        if r4 == "sat":
            env = env4
        elif r4 == "unsat":
            STATS["z3"] += 1
            return Result("proved", "z3", secs=time.time() - t0)
    if spurious(list(pc), goal, env):
        return Result("unknown", "z3", env=env, secs=time.time() - t0)
    return Result("refuted", "z3", env=env, secs=time.time() - t0)


def innermost(fs):
    """An abs or ite atom without abs/ite below it, or None."""
    best = None

    def visit(t, seen):
        nonlocal best
        if isinstance(t, R):
            for i in t.atoms():
                if i in seen:
                    continue
                seen.add(i)
                a = _ATOMS[i]
                for x in a.args:
                    visit(x, seen)
                if a.kind == "fn" and a.name in ("abs", "ite") and (best is None or a.depth < _ATOMS[best].depth):
                    best = i
        elif t.kind not in ("const", "var"):
            for x in t.args:
                visit(x, seen)
    seen = set()
    for f in fs:
        visit(f, seen)
    return best


def split_unsat(fs, deadline, leaves=None):
    """Are the formulas together unsatisfiable?  By cases on the abs and ite atoms, each case in normal form."""
    leaves = [200] if leaves is None else leaves
    if any(f.kind == "const" and not f.args[0] for f in fs):
        return True
    if time.time() > deadline or leaves[0] <= 0:
        return False
    i = innermost(fs)
    if i is None:
        leaves[0] -= 1
        left = int(max(200, min(3000, (deadline - time.time()) * 1000)))
        return linear_unsat(fs, left) or check_sat(fs, left) == "unsat"
    a = _ATOMS[i]
    if a.name == "abs":
        x = a.args[0]
        cases = [(x, T.le(T.ZERO, x)), (-x, T.le(x, T.ZERO))]
    else:
        cases = [(a.args[1], a.args[0]), (a.args[2], T.not_(a.args[0]))]
    saved = T.HOOKS.wd, T.HOOKS.known, T.HOOKS.branch
    T.HOOKS.wd = T.HOOKS.known = None
    try:
        for val, cond in cases:
            try:
                fs2 = [T.subst_b(f, {}, {i: val}) for f in fs] + [cond]
            except (ZeroDivisionError, T.Unsupported):
                return False
            flat = []
            for f in fs2:
                flat += list(f.args) if f.kind == "and" else [f]
            fs2 = [f for f in flat if not (f.kind == "const" and f.args[0])]
            if check_sat(fs2, 300) == "unsat":
                continue
            if not split_unsat(fs2, deadline, leaves):
                return False
        return True
    finally:
        T.HOOKS.wd, T.HOOKS.known, T.HOOKS.branch = saved


INEXACT = ("sin", "cos", "atan", "asin", "acos", "atan2", "exp", "log", "pow", "round", "turns", "pi")


def spurious(pc, goal, env):
    """z3 only knows some true facts about sin, exp, ...: does its model survive evaluation with the real functions?"""
    fs = pc + [goal]
    if not any(T.has_fn(f, INEXACT) for f in fs):
        return False
    if env is None or any(T.has_fn(f, ("uf",)) for f in fs):
        return True
    try:
        if T.eval_b(goal, env, None, 1e-6):
            return True
        return not all(T.eval_b(h, env, None, 1e-6) or T.eval_b(h, env) for h in pc)
    except Exception:
        return True


def _closed_neg(b):
    return b.kind == "const" and b.args[0] is False


def substitute_eqs(hyps, ng):
    """Use hypotheses of the form var = term (var linear with constant coefficient) to eliminate variables."""
    mapping = {}
    rest = list(hyps)
    for h in list(rest):
        if h.kind != "eq":
            continue
        p = h.args[0]
        for mm, c in p.m.items():
            if len(mm) == 1 and mm[0][1] == 1 and _ATOMS[mm[0][0]].kind == "var":
                name = _ATOMS[mm[0][0]].name
                rhs = R({k: -v / c for k, v in p.m.items() if k != mm})
                if name in T.free_vars(rhs) or name in mapping:
                    continue
                rhs = T.subst(rhs, mapping)
                if name in T.free_vars(rhs):
                    continue
                mapping = {k: T.subst(v, {name: rhs}) for k, v in mapping.items()}
                mapping[name] = rhs
                rest.remove(h)
                break
    if not mapping:
        return None
    saved = T.HOOKS.wd
    T.HOOKS.wd = None
    try:
        return [T.subst_b(h, mapping) for h in rest], T.subst_b(ng, mapping)
    except ZeroDivisionError:
        return None
    finally:
        T.HOOKS.wd = saved


def cvc5_check(solver, timeout_ms):
    txt = "(set-logic ALL)\n" + solver.to_smt2().replace("(set-info :status unknown)", "")
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        out = subprocess.run([CVC5, "--tlimit=%d" % timeout_ms, f.name], capture_output=True, text=True,
                             timeout=timeout_ms / 1000 + 5)
        return out.stdout.strip().splitlines()[0] if out.stdout.strip() else "unknown"
    except Exception:
        return "unknown"
    finally:
        try:
            os.unlink(f.name)
        except OSError:
            pass
