"""The engine: explores every path of a contract's harness through the real code, generates the obligations, discharges them."""
import sys
import time
import traceback
import types

import numpy as np

from . import terms as T
from . import solve
from . import runtime
from .runtime import NeedFork, PathEnd, SymSeq, LoopSpec, Poison
from .terms import R, B, Unsupported
from .spec import Tri, Discard


class Limit(Exception):
    pass


class Registry:
    contracts = {}


class Contract:
    def __init__(self, cid, prop, fn, targets, **opt):
        self.id, self.prop, self.fn, self.targets, self.opt = cid, prop, fn, list(targets), opt
        self.doc = (fn.__doc__ or "").strip()

    def variants(self):
        """Ways to prove it, in order: (name, stubs?, unbounded sequences?)."""
        out = []
        st, sq = self.opt.get("stubs", False), self.opt.get("seqs", False)
        for s in ([True, False] if st else [False]):
            if sq:
                out.append(("unbounded" + ("/callee contracts" if s else ""), s, True))
            else:
                out.append(("callee contracts" if s else "inline", s, False))
        if sq:
            out.append(("bounded(n<=%d)" % self.opt.get("bound", 2), False, False))
        return out


def contract(cid, targets, **opt):
    def deco(fn):
        prop = opt.pop("prop", cid.split(".")[0])
        Registry.contracts[cid] = Contract(cid, prop, fn, targets, **opt)
        return fn
    return deco


class Obligation:
    __slots__ = ("label", "paths", "proved", "status", "backends", "secs", "env", "note", "internal", "trace")

    def __init__(self, label, internal):
        self.label, self.internal = label, internal
        self.paths = self.proved = 0
        self.status, self.env, self.note = "proved", None, ""
        self.backends, self.secs = {}, 0.0
        self.trace = None


class Engine:
    def __init__(self, contract, variant, deadline, timeout_ms=6000, max_paths=600):
        self.contract, self.variant = contract, variant
        self.deadline, self.timeout_ms, self.max_paths = deadline, timeout_ms, max_paths
        self.obl = {}
        self.paths = 0
        self.assumed = {}
        self.reached = 0
        self.unsupported = None
        self.covered = set()
        self.loops_met, self.loops_run = set(), set()

    # ---- one run
    def start_path(self, prefix):
        self.pc = []
        self.decisions = []
        self.prefix = prefix
        self.pos = 0
        self.spec = []
        self.active = []        # loops over symbolic sequences whose body is being executed
        self.loop_count = {}
        self.names = {}
        self.ctx = Ctx(self)
        solve.PIVOTS = self.ctx.pivots = []
        runtime.ENGINE[0] = self
        T.HOOKS.branch = self.branch
        T.HOOKS.wd = self.wd
        T.HOOKS.decide = self.decide
        T.HOOKS.known = self.known

    def run(self):
        work = [[]]
        ninput = 0
        t_end = self.deadline
        while work:
            if time.time() > t_end or self.paths >= self.max_paths:
                self.unsupported = "path or time limit (%d paths)" % self.paths
                break
            prefix = work.pop()
            self.start_path(prefix)
            self.paths += 1
            outcome = "ok"
            try:
                with self.ctx:
                    self.contract.fn(self.ctx)
            except PathEnd as e:
                outcome = str(e)
            except Discard:
                outcome = "discarded"
            except (Unsupported, Limit) as e:
                self.unsupported = self.unsupported or "%s [%s]" % (e, _where())
                if len(self.obl) and any(o.status == "refuted" for o in self.obl.values()):
                    pass
                outcome = "unsupported"
            except Exception as e:      # an exception of the code under verification
                outcome = "exception"
                self.exception(e)
            finally:
                runtime.ENGINE[0] = None
                T.HOOKS.branch = T.HOOKS.wd = T.HOOKS.decide = T.HOOKS.known = None
            if outcome in ("ok",):
                self.reached += 1
            # new alternatives
            for k in range(len(prefix), len(self.decisions)):
                d, alts = self.decisions[k]
                for a in alts:
                    work.append([x for x, _ in self.decisions[:k]] + [a])
            if self.unsupported and self.unsupported.startswith("path or"):
                break
        if self.loops_met - self.loops_run and not self.unsupported:
            self.unsupported = "vacuous loop contract: no path enters the body of %s" % sorted(self.loops_met - self.loops_run)
        return self

    def exception(self, e):
        env = None
        r, env, _ = solve.check_sat(self.pc, self.timeout_ms, want_model=True)
        if r == "unsat":
            return
        o = self._obl("no exception (%s)" % type(e).__name__, False)
        o.paths += 1
        o.status = "refuted" if o.status != "refuted" else o.status
        o.note = "%s: %s [%s]" % (type(e).__name__, e, _where())
        if env is not None:
            o.env = self.env(env)

    # ---- decisions
    def _take(self, options, default_alts):
        """options: list of decision values possible, in order. Returns the chosen one."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((d, []))
            return d
        self.pos += 1
        d = options[0]
        self.decisions.append((d, options[1:]))
        return d

    def branch(self, b):
        if self.spec:
            raise NeedFork()
        if time.time() > self.deadline:
            raise Limit("time limit")
        nb = T.not_(b)
        for h in self.pc:
            if h.same(b):
                return True
            if h.same(nb):
                return False
        if any(n.startswith("bound!") for n in T.free_vars(b)):
            # what is said at a bound position must hold at all of them: no case split on it
            for d, g in ((True, b), (False, nb)):
                if solve.prove(self.pc, g, 1500).status == "proved":
                    return d
            raise Unsupported("case split on a summand")
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((d, []))
        else:
            opts = []
            if solve.feasible(self.pc, b):
                opts.append(True)
            if not opts or solve.feasible(self.pc, nb):
                opts.append(False)
            self.pos += 1
            d = opts[0]
            self.decisions.append((d, opts[1:]))
        self.pc.append(b if d else nb)
        return d

    def decide(self, b):
        return self.branch(b)

    def known(self, b):
        """The truth value of b when the current path records it."""
        nb = None
        for h in self.pc:
            if h.same(b):
                return True
            if nb is None:
                nb = T.not_(b)
            if h.same(nb):
                return False
        return None

    def pick(self, n):
        return self._take(list(range(n)), None)

    def speculate(self, guard, thunk):
        self.spec.append(guard)
        try:
            return thunk()
        finally:
            self.spec.pop()

    def assume(self, b):
        b = T.lift_b(b) if not isinstance(b, Tri) else (T.TRUE if b.v is not False else T.FALSE)
        if b.kind == "const":
            if not b.args[0]:
                raise PathEnd("assumption false")
            return
        if b.kind == "and":
            for x in b.args:
                self.assume(x)
            return
        if not solve.feasible(self.pc, b):
            raise PathEnd("assumption infeasible")
        self.pc.append(b)

    def wd(self, kind, cond):
        if cond.kind == "const" and cond.args[0]:
            return
        if kind in ("tan",):
            self.assumed["tan is evaluated away from its poles"] = True
            self.pc.append(cond)
            return
        g = T.and_(*self.spec) if self.spec else T.TRUE
        self.check("well-defined: %s" % kind, T.implies(g, cond), wd=True)
        if not self.spec:
            if cond.kind == "const":
                raise PathEnd("ill-defined")
            self.pc.append(cond)

    # ---- obligations
    def _obl(self, label, internal):
        o = self.obl.get(label)
        if o is None:
            o = self.obl[label] = Obligation(label, internal)
        return o

    def check(self, label, cond, internal=False, wd=False):
        o = self._obl(label, internal)
        o.paths += 1
        if isinstance(cond, Tri):
            cond = T.TRUE if cond.v is not False else T.FALSE
        cond = T.lift_b(cond)
        t0 = time.time()
        if cond.kind != "const" and T.has_fn(cond, ("ite",)):
            saved, T.HOOKS.wd = T.HOOKS.wd, None
            try:
                cond = T.subst_b(cond, {})      # settles the conditionals this path has decided
            finally:
                T.HOOKS.wd = saved
        if o.status == "refuted":
            return
        if cond.kind == "const" and cond.args[0]:
            o.proved += 1
            o.backends["normal-form"] = o.backends.get("normal-form", 0) + 1
            return
        left = self.deadline - t0
        if left < 0.5:
            raise Limit("time limit")
        r = solve.prove(self.pc, cond, int(min(self.timeout_ms, left * 1000)))
        o.secs += time.time() - t0
        if r.status == "proved":
            o.proved += 1
            o.backends[r.backend] = o.backends.get(r.backend, 0) + 1
        elif r.status == "refuted":
            o.status = "refuted"
            o.env = self.env(r.env) if r.env is not None else None
            o.note = "%r under %s" % (cond, [repr(p)[:120] for p in self.pc[:12]])
        else:
            if o.status == "proved":
                o.status = "unknown"
            o.note = "undecided: %s" % (repr(cond)[:300])

    def env(self, env):
        """Model -> values for the harness' inputs (this path's choices included)."""
        out = dict(env or {})
        for k, v in self.names.items():
            if k not in out:
                out[k] = v
        return out

    def loop_spec(self, seq, site):
        s = self.ctx.loops.get(seq.name) or seq.spec
        if callable(s) and not isinstance(s, LoopSpec):     # a contract per loop: (ctx, seq, enclosing loops, how many before)
            key = (seq.name, len(self.active))
            k = self.loop_count.get(key, 0)
            self.loop_count[key] = k + 1
            s = s(self.ctx, seq, list(self.active), k)
        return s


def _where():
    tb = sys.exc_info()[2]
    last = ""
    for f, ln in traceback.walk_tb(tb):
        fn = f.f_code.co_filename
        if "highway_env" in fn or "contracts" in fn:
            last = "%s:%d" % (fn.split("/repo/")[-1], ln)
    return last


def concretize_int(r):
    """A symbolic integer used as an index: split the path over its possible values."""
    eng = runtime.ENGINE[0]
    if eng is None:
        raise Unsupported("symbolic index outside the engine")
    if eng.spec:
        raise NeedFork()
    for v in range(0, 24):
        for w in ((v, -v) if v else (v,)):
            if not solve.feasible(eng.pc, T.eq(r, T.num(w))):
                continue
            if eng.branch(T.eq(r, T.num(w))):
                return w
    if not solve.feasible(eng.pc, T.TRUE):
        raise PathEnd("infeasible")
    raise Unsupported("symbolic index with too many values")


class _Base:
    sym = False

    def _unique(self, name):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        return name if n == 0 else "%s~%d" % (name, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for undo in reversed(self.undo):
            undo()
        self.undo = []
        return False

    def patch(self, owner, attr, value):
        """Replace an attribute for the duration of this run (both modes): ghosts and stand-ins named by the contract."""
        had = attr in owner.__dict__ if isinstance(owner, type) else hasattr(owner, attr)
        old = owner.__dict__.get(attr) if isinstance(owner, type) else getattr(owner, attr, None)
        setattr(owner, attr, value)

        def undo():
            if had:
                setattr(owner, attr, old)
            else:
                delattr(owner, attr)
        self.undo.append(undo)

    def vec(self, name, n=2, lo=None, hi=None, s=None):
        return self.arr([self.real("%s%d" % (name, i), lo, hi, s) for i in range(n)])

    def oneof(self, name, *options):
        return self.choice(name, list(options))


class Ctx(_Base):
    """Symbolic mode."""
    sym = True

    def __init__(self, eng):
        self.e = eng
        self.counts = {}
        self.undo = []
        self.loops = {}
        self.events = []
        self.instances = []     # integers at which facts about ranges of unknown length are instantiated
        self.positions = []     # positions at which any/all found their element
        from . import proxy
        self.np = proxy.NUMPY
        self.pi = T.PI
        self.stubs_on = eng.variant[1]
        self.unbounded = eng.variant[2]

    def real(self, name, lo=None, hi=None, s=None):
        n = self._unique(name)
        self.e.names[n] = 0.0
        v = T.var(n)
        if lo is not None:
            self.require(T.le(T.lift(lo), v))
        if hi is not None:
            self.require(T.le(v, T.lift(hi)))
        return v

    def pos(self, name, hi=None, s=None):
        v = self.real(name, None, hi, s)
        self.require(T.lt(T.ZERO, v))
        return v

    def at(self, x):
        """Facts about ranges of unknown length are to be used at x."""
        self.instances.append(T.lift(x))

    def int(self, name, lo=None, hi=None, s=None):
        n = self._unique(name)
        self.e.names[n] = 0
        v = T.var(n, True)
        if lo is not None:
            self.require(T.le(T.lift(lo), v))
        if hi is not None:
            self.require(T.le(v, T.lift(hi)))
        return v

    def smallint(self, name, lo, hi):
        """An integer in [lo, hi], enumerated (a case split, not a bound of the proof)."""
        return lo + self.choice(name, list(range(hi - lo + 1)))

    def bool(self, name):
        return self.choice(name, [True, False])

    def choice(self, name, options):
        n = self._unique("?" + name)
        k = self.e.pick(len(options)) if len(options) > 1 else 0
        self.e.names[n] = k
        return options[k]

    def fork(self, cond):
        return bool(cond)

    def symbool(self, name):
        n = self._unique("!" + name)
        return T.bvar(n)

    def arr(self, xs):
        return self.np.array(xs)

    def require(self, cond):
        if isinstance(cond, (list, tuple)):
            for c in cond:
                self.require(c)
            return
        self.e.assume(cond)
    assume = require

    def ensure(self, label, cond):
        self.e.check(label, cond)

    def lemma(self, label, cond):
        """An intermediate obligation, usable afterwards."""
        self.e.check(label, cond)
        self.e.pc.append(T.lift_b(cond))

    def entails(self, cond, ms=4000):
        """Is this settled by what is known on the path?"""
        if isinstance(cond, Tri):
            return cond.v is not False
        return solve.prove(self.e.pc, T.lift_b(cond), ms).status == "proved"

    def square(self, *xs):
        """The fact that a sum of squares is not negative."""
        t = T.ZERO
        for x in xs:
            t = t + T.lift(x) * T.lift(x)
        self.e.pc.append(T.le(T.ZERO, t))

    def unreachable(self, label):
        self.e.check(label, T.FALSE)

    def stub(self, owner, attr, fn):
        """Use fn (the callee's contract) in place of the callee; only in the modular proof."""
        if self.stubs_on:
            if not hasattr(owner, attr):
                raise Unsupported("callee %s is gone" % attr)
            self.patch(owner, attr, fn)

    def seq(self, name, make, spec=None, witnesses=None, bound=None):
        """A sequence of unknown length whose elements are made by make(c, tag)."""
        if self.unbounded:
            s = SymSeq(name, [make(self, "w%d" % i) for i in range(1 if witnesses is None else witnesses)],
                       lambda c: make(c, "u"), spec)
            return s
        n = self.choice("len_" + name, list(range((self.e.contract.opt.get("bound", 2) if bound is None else bound) + 1)))
        return [make(self, "e%d" % i) for i in range(n)]

    def elements(self, seq):
        return seq.w if isinstance(seq, SymSeq) else list(seq)

    def uf(self, name, *args, isint=False):
        return T.uf(name, *args, isint=isint)

    def note(self, text):
        self.e.assumed[text] = True

    def raises(self, f, *a, **k):
        try:
            f(*a, **k)
        except (Unsupported, NeedFork, PathEnd, Limit, Discard):
            raise
        except Exception as ex:
            return ex
        return None


class Fail(Exception):
    def __init__(self, label, info):
        self.label, self.info = label, info


# obligations of the contract under test which known_findings.json lists: label -> what was seen of it in this run
KNOWN = {}


class ConcCtx(_Base):
    """Concrete mode: the same harness on the unmodified code, with floats."""
    sym = False
    stubs_on = False
    unbounded = False

    def __init__(self, rng, env=None, scale=None):
        self.rng_, self.env_in = rng, env
        self.env = {}
        self.counts = {}
        self.undo = []
        self.loops = {}
        self.events = []
        self.np = np
        self.pi = np.pi
        self.checks = 0
        self.mode = rng.randrange(4)

    def _given(self, n):
        if self.env_in is not None and n in self.env_in:
            return True, self.env_in[n]
        return False, None

    def real(self, name, lo=None, hi=None, s=None):
        n = self._unique(name)
        ok, v = self._given(n)
        if ok:
            v = float(v)
            if lo is not None and v < float(lo):
                v = float(lo)
            if hi is not None and v > float(hi):
                v = float(hi)
        else:
            v = self._sample(lo, hi, s)
        self.env[n] = v
        return v

    def _sample(self, lo, hi, s):
        r = self.rng_
        lo = None if lo is None else float(lo)
        hi = None if hi is None else float(hi)
        a, b = s if s is not None else (lo, hi)
        if a is None:
            a = (b - 20) if b is not None else -10.0
        if b is None:
            b = a + 20.0
        a, b = float(a), float(b)
        u = r.random()
        if u < 0.12:
            v = r.choice([a, b, 0.0, (a + b) / 2])
        elif u < 0.2:
            v = float(r.randint(int(min(a, b)) - 1, int(max(a, b)) + 1)) if abs(a) < 1e6 and abs(b) < 1e6 else a
        elif u < 0.3:
            v = r.choice([-1, 1]) * 10 ** r.uniform(-3, 1)
        else:
            v = r.uniform(a, b)
        if lo is not None and v < lo:
            v = lo if r.random() < 0.2 else r.uniform(a, b)
        if hi is not None and v > hi:
            v = hi if r.random() < 0.2 else r.uniform(a, b)
        return float(v)

    def pos(self, name, hi=None, s=None):
        n = self._unique(name)
        ok, v = self._given(n)
        v = float(v) if ok else abs(self._sample(0, hi, s))
        if v <= 0:
            v = 0.5 if hi is None else min(0.5, float(hi) / 2)
        self.env[n] = v
        return v

    def int(self, name, lo=None, hi=None, s=None):
        n = self._unique(name)
        ok, v = self._given(n)
        if ok:
            v = int(round(float(v)))
        else:
            a, b = s if s else (lo, hi)
            a = -10 if a is None and b is None else (b - 20 if a is None else a)
            b = a + 20 if b is None else b
            v = self.rng_.randint(int(a), int(b))
        v = v if lo is None else max(v, int(lo))
        v = v if hi is None else min(v, int(hi))
        self.env[n] = v
        return v

    def smallint(self, name, lo, hi):
        return lo + self.choice(name, list(range(hi - lo + 1)))

    def bool(self, name):
        return self.choice(name, [True, False])

    def choice(self, name, options):
        n = self._unique("?" + name)
        ok, v = self._given(n)
        k = int(v) if ok and int(v) < len(options) else self.rng_.randrange(len(options))
        self.env[n] = k
        return options[k]

    def symbool(self, name):
        n = self._unique("!" + name)
        ok, v = self._given(n)
        v = bool(v) if ok else self.rng_.random() < 0.5
        self.env[n] = v
        return v

    def fork(self, cond):
        return bool(cond)

    def arr(self, xs):
        return np.array(xs)

    def require(self, cond):
        if isinstance(cond, (list, tuple)):
            for x in cond:
                self.require(x)
            return
        if isinstance(cond, Tri):
            if cond.v is True or (cond.v is None and "==" in cond.info):
                return
            if self.env_in is not None and cond.v is None:
                return
            raise Discard()
        if not cond:
            raise Discard()
    assume = require

    def ensure(self, label, cond):
        self.checks += 1
        v = cond.v if isinstance(cond, Tri) else bool(np.all(cond))
        if v is False:
            info = cond.info if isinstance(cond, Tri) else ""
            if label in KNOWN:      # a listed finding does not hide the obligations after it
                KNOWN[label] = info
                return
            raise Fail(label, info)

    lemma = ensure

    def square(self, *xs):
        pass

    def at(self, x):
        pass

    def unreachable(self, label):
        raise Fail(label, "")

    def stub(self, owner, attr, fn):
        pass

    def seq(self, name, make, spec=None, witnesses=None, bound=None):
        n = self.choice("len_" + name, list(range(6 if bound is None else bound + 1)))
        return [make(self, "e%d" % i) for i in range(n)]

    def elements(self, seq):
        return list(seq)

    def uf(self, name, *args, isint=False):
        raise Discard()

    def note(self, text):
        pass

    def raises(self, f, *a, **k):
        try:
            f(*a, **k)
        except (Fail, Discard, Unsupported):
            raise
        except Exception as ex:
            return ex
        return None
