"""Run-time support called by the instrumented code (`__pv`) and the symbolic sequences."""
import gc
import operator
import sys
import types

from . import terms as T, proxy
from .terms import R, B, Unsupported


class NeedFork(Exception):
    pass


class PathEnd(Exception):
    """This path has nothing more to show (its obligations are checked)."""


ENGINE = [None]


class _RandomModule:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from . import proxy
        if proxy.GLOBAL_RANDOM[0] is not None:
            return proxy.GLOBAL_RANDOM[0]("random." + name)
        raise Unsupported("random." + name)


RANDOM_MODULE = _RandomModule()


def _pb(x):
    return x.args[0] if isinstance(x, B) and x.kind == "const" else x


def not_(x):
    if isinstance(x, B):
        return _pb(T.not_(x))
    return not x


def boolop(is_and, *thunks):
    acc = []
    last = len(thunks) - 1
    comb = T.and_ if is_and else T.or_
    for k, t in enumerate(thunks):
        if acc:
            guard = T.and_(*acc) if is_and else T.not_(T.or_(*acc))
            try:
                v = ENGINE[0].speculate(guard, t)
                if not isinstance(v, (B, bool)):
                    raise NeedFork()
            except NeedFork:
                cur = comb(*acc)
                if bool(cur) is not is_and:
                    return not is_and
                acc = []
                v = t()
        else:
            v = t()
        if isinstance(v, B) and v.kind == "const":
            v = v.args[0]
        if isinstance(v, B):
            acc.append(v)
            continue
        if acc:      # v is a bool here
            if v is not is_and:
                return v
            continue
        truth = bool(v)
        if truth is not is_and or k == last:
            return v
    return _pb(comb(*acc)) if acc else is_and


def ifexp(test, then, other):
    """then if test else other; in contracts that ask for it (merge_ifs) one number depending on the test, not two paths."""
    t = test()
    eng = ENGINE[0]
    if not isinstance(t, B) or t.kind == "const" or eng is None or not getattr(eng.ctx, "merge_ifs", False):
        return then() if t else other()
    try:
        a = eng.speculate(t, then)
        b = eng.speculate(T.not_(t), other)
        if all(isinstance(x, T.R) or T.is_num(x) for x in (a, b)):
            return T.ite(t, a, b)
    except NeedFork:
        pass
    return then() if t else other()


class KeyedDict(dict):
    """A dictionary some keys of which are numbers known symbolically only: keys are the same when equal."""

    def __init__(self, pairs):
        dict.__init__(self)
        for k, v in pairs:
            self[k] = v

    def __setitem__(self, k, v):
        dict.__setitem__(self, proxy.key(k), v)

    def __getitem__(self, k):
        return dict.__getitem__(self, proxy.key(k))

    def __contains__(self, k):
        return dict.__contains__(self, proxy.key(k))

    def __delitem__(self, k):
        dict.__delitem__(self, proxy.key(k))

    def get(self, k, default=None):
        return dict.get(self, proxy.key(k), default)

    def __iter__(self):
        return iter([proxy.unkey(k) for k in dict.__iter__(self)])

    def keys(self):
        return list(self)

    def items(self):
        return [(proxy.unkey(k), v) for k, v in dict.items(self)]

    def _no(self, *a, **k):
        raise Unsupported("use of a dictionary with symbolic keys")
    pop = popitem = setdefault = update = copy = _no


def mkdict(pairs):
    if any(proxy.symbolic_key(k) for k, _ in pairs):
        return KeyedDict(pairs)
    return dict(pairs)


def mkset(xs):
    if any(proxy.symbolic_key(x) for x in xs):
        raise Unsupported("a set of numbers known symbolically only")
    return set(xs)


_CMP = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge, "Eq": operator.eq,
        "NotEq": operator.ne}


def chain(ops, *thunks):
    """a op b op c, each operand evaluated once and only when needed."""
    ops = ops.split(",")
    vals = [thunks[0]()]

    def part(i):
        def f():
            while len(vals) <= i + 1:
                vals.append(thunks[len(vals)]())
            return _CMP[ops[i]](vals[i], vals[i + 1])
        return f
    return boolop(True, *[part(i) for i in range(len(ops))])


def contains(x, xs):
    if isinstance(xs, SymSeq):
        return xs.contains(x)
    if isinstance(x, R) and isinstance(xs, (list, tuple, range)):
        for e in xs:
            if bool(x == e):
                return True
        return False
    return x in xs


def many_of(x):
    """The elements of a one-dimensional array of unknown size, as a tuple of unknown length."""
    if type(x).__name__ == "Lazy" and x.ndim == 1 and not isinstance(x.shape[0], int):
        return Many(x.shape[0], x.at)
    return x


def comp(kind, xs, elt, conds):
    xs = many_of(xs)
    if isinstance(xs, SymSeq):
        return xs.comp(elt, conds)
    if isinstance(xs, Many):
        return xs.comp(elt, conds)
    if type(xs).__name__ == "SymRange" and not conds and ENGINE[0] is not None and not ENGINE[0].spec:
        return Many(xs.__symlen__(), lambda k: xs.lo + k).comp(elt, conds)
    if kind == "gen":
        return (elt(x) for x in xs if all(bool(c(x)) for c in conds))
    return [elt(x) for x in xs if all(bool(c(x)) for c in conds)]


class _Plain:
    sym = False

    def __init__(self, it):
        self.it = it

    def head(self):
        return True


def wloop(site, names, muts):
    """A while loop: under contract if the context has one for "while" loops, else as it is."""
    if ENGINE[0] is not None and "while" in ENGINE[0].ctx.loops:
        return SymLoop(WhileSeq(), site, names, muts, sys._getframe(1))
    return _Plain(None)


def loop(it, site, names, muts):
    it = many_of(it)
    if isinstance(it, SymSeq):
        return SymLoop(it, site, names, muts, sys._getframe(1))
    if isinstance(it, Many):
        return SymLoop(ManySeq(it), site, names, muts, sys._getframe(1))
    if type(it).__name__ == "SymRange" and ENGINE[0] is not None:
        seq = RangeSeq(it.lo, it.hi)
        if "range" not in ENGINE[0].ctx.loops and "many" in ENGINE[0].ctx.loops:
            seq.name = "many"           # for k in range(len(xs)): ... xs[k]
        if seq.name in ENGINE[0].ctx.loops:
            return SymLoop(seq, site, names, muts, sys._getframe(1))
    return _Plain(it)


class Poison:
    """The value a loop-local name has after a havocked loop: unknown, so any use is refused."""
    def _no(self, *a, **k):
        raise Unsupported("use of a loop-local value after the loop")
    __getattr__ = __add__ = __sub__ = __mul__ = __call__ = __getitem__ = __iter__ = __bool__ = __lt__ = __eq__ = _no
    __hash__ = None

    def __init__(self):
        pass


class LoopSpec:
    """The contract of a loop over a symbolic sequence.
    roles: names of the loop-carried variables (as in the source);
    havoc(c, seq, seen) -> {role: arbitrary value} (may fork, may assume);
    inv(c, seq, state, seen) -> [(label, B)]; frame: objects the body may not modify; enter(elem), leave(elem): ghosts."""

    def __init__(self, roles=(), havoc=None, inv=None, frame=(), on_state=None, split=True):
        """split: whether a witness was seen before is a case distinction (True) or a symbolic condition."""
        self.roles, self.havoc, self.inv, self.frame, self.on_state, self.split = roles, havoc, inv, frame, on_state, split


class SymSeq:
    """A finite sequence of unknown length.  Its elements are the given witnesses (each occurring exactly once, anywhere)
    and any number of further elements, each an arbitrary object produced by other()."""
    __symseq__ = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self._unsup("." + name)

    def __init__(self, name, witnesses=(), other=None, spec=None, finite=False):
        self.name, self.w, self.other, self.spec = name, list(witnesses), other, spec
        self.finite = finite
        self.log = []

    def _unsup(self, what):
        raise Unsupported("%s of the symbolic sequence %s" % (what, self.name))

    def __symseq__(self, what, key=None, reverse=False):
        if what == "sorted":
            return SortedSeq(self, key, reverse)
        self._unsup(what)

    def __iter__(self):
        self._unsup("iteration (without contract)")

    def __len__(self):
        self._unsup("length")

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step is None:
            return self
        self._unsup("indexing")

    def __bool__(self):
        if self.w:
            return True
        self._unsup("truth value")

    def __contains__(self, x):
        return self.contains(x)

    def contains(self, x):
        for e in self.w:
            if e is x:
                return True
        self._unsup("membership test")

    def comp(self, elt, conds):
        """[elt(x) for x in self if conds]: the witnesses that satisfy the conditions, and others that do."""
        hold = lambda x: all(bool(p(x)) for p in conds)
        kept = [elt(w) for w in self.w if hold(w)]

        def other(c):
            x = self.other(c)
            if not hold(x):
                raise PathEnd("element not selected")
            return elt(x)
        return SymSeq(self.name + "'", kept, other if self.other else None, self.spec)

    def __add__(self, o):
        if isinstance(o, SymSeq):
            others = [f for f in (self.other, o.other) if f]
            return SymSeq(self.name, self.w + o.w, _alt(others), self.spec or o.spec)
        return SymSeq(self.name, self.w + list(o), self.other, self.spec)

    def __radd__(self, o):
        return SymSeq(self.name, list(o) + self.w, self.other, self.spec)

    def append(self, x):
        self.log.append(("append", x))
        self.w.append(x)

    def remove(self, x):
        self._unsup("removal")

    def __deepcopy__(self, memo):
        self._unsup("copy")


class SortedSeq(SymSeq):
    """sorted(seq, key, reverse)[:cut]: the contract reads key, reverse and cut (None: the whole sequence)."""

    def __init__(self, seq, key, reverse, cut=None):
        SymSeq.__init__(self, "sorted " + seq.name, seq.w, seq.other, seq.spec)
        self.key, self.reverse, self.cut = key or (lambda x: x), reverse, cut

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.step is None and i.stop is not None and self.cut is None:
            return SortedSeq(self, self.key, self.reverse, i.stop)
        self._unsup("indexing")

    def __bool__(self):
        self._unsup("truth value")


class RangeSeq(SymSeq):
    """The integers lo, lo+1, ..., hi-1 in order, as iterated by a loop under contract (ctx.loops["range"]): seq.k is the
    number reached so far (the next element)."""

    def __init__(self, lo, hi):
        lo, hi = T.lift(lo), T.lift(hi)
        self.lo, self.hi = lo, T.max_(lo, hi)
        SymSeq.__init__(self, "range", (), lambda c: self.k)
        self.k = lo


class WhileSeq(SymSeq):
    """Stands for the iterations of a while loop (ctx.loops["while"]): each starts in an arbitrary state the invariant allows;
    the loop's own condition decides between another iteration and the exit."""

    def __init__(self):
        SymSeq.__init__(self, "while", (), lambda c: None)


class Many(tuple):
    """The tuple (at(0), ..., at(n-1)) of unknown length n.  Used where code treats the elements one by one:
    * a comprehension gives the tuple of the results; its entries are known at the integers the contract names (c.at);
    * any/all: the truth value is split on; if some element satisfies the condition, it is one at an arbitrary position;
      otherwise none of those at the named integers does;
    * sum: the term Sum(n, summand at an arbitrary position): two sums are equal when their summands provably are;
    * a loop needs a contract (ctx.loops["many"])."""
    __many__ = True

    def __new__(cls, n, at):
        self = tuple.__new__(cls, ())
        self.n, self.at = T.lift(n), at
        return self

    def __symlen__(self):
        return self.n

    def _no(self, *a, **k):
        raise Unsupported("this use of a tuple of unknown length")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self._no()
    __iter__ = __contains__ = __add__ = __mul__ = __rmul__ = __hash__ = __reversed__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __ne__ = __deepcopy__ = __copy__ = __reduce_ex__ = __array__ = count = index = _no
    __len__ = _no

    def __bool__(self):
        return ENGINE[0].branch(T.lt(T.ZERO, self.n))

    def __radd__(self, o):
        """A few known elements followed by these."""
        if type(o) not in (list, tuple):
            self._no()
        o, eng = list(o), ENGINE[0]

        def at(k):
            k = T.lift(k)
            for i, x in enumerate(o):
                if eng.branch(T.eq(k, T.lift(i))):
                    return x
            return self.at(k - len(o))
        return Many(self.n + len(o), at)

    def __eq__(self, o):
        return self is o or self._no()

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                self._no()
            a, b = 0 if i.start is None else i.start, i.stop
            if type(a) is int and a >= 0 and (b is None or (type(b) is int and b < 0)):         # xs[a:], xs[a:-b]
                return Many(T.max_(T.ZERO, self.n - a + (b or 0)), lambda k: self.at(k + a))
            from . import lazy
            lo, hi = lazy.Lazy._bound(a, self.n, 0), lazy.Lazy._bound(b, self.n, self.n)
            return Many(lazy._diff(hi, lo), lambda k: self.at(T.lift(k) + lo))
        i = self.n + i if isinstance(i, int) and i < 0 else T.lift(i)
        if not ENGINE[0].spec and not ENGINE[0].branch(T.and_(T.le(T.ZERO, i), T.lt(i, self.n))):
            raise IndexError("tuple index out of range")
        return self.at(i)

    def comp(self, elt, conds):
        if conds:
            return self.filter(elt, conds)
        return Many(self.n, lambda k: elt(self.at(k))).fixed()

    def filter(self, elt, conds):
        """[elt(x) for x in self if conds]: at most as many; each is elt of some element that satisfies the conditions."""
        eng = ENGINE[0]
        m = eng.ctx.int("selected count", 0)
        eng.assume(T.le(m, self.n))
        known = []

        def at(k):
            k = T.lift(k)
            for i, v in known:
                if i.m == k.m:
                    return v
            j = eng.ctx.int("selected")
            eng.assume(T.and_(T.le(T.ZERO, j), T.lt(j, self.n)))
            x = self.at(j)
            if not all(bool(p(x)) for p in conds):
                raise PathEnd("element not selected")
            known.append((k, elt(x)))
            return known[-1][1]
        new = Many(m, at)
        new.__dict__.update({k: v for k, v in self.__dict__.items() if k not in ("n", "at")})
        return new

    def fixed(self):
        """The elements at the named integers and at the arbitrary position are determined now."""
        eng = ENGINE[0]
        at, known = self.at, []
        for k in eng.ctx.instances:
            known.append((k, at(k)))

        def get(k):
            k = T.lift(k)
            for i, v in known:
                if i.m == k.m:
                    return v
            known.append((k, at(k)))
            return known[-1][1]
        return Many(self.n, get)

    def some(self, stop):
        """Truth value of any (stop=True): is there an element that is true?  Of all (stop=False): is there one that is
        false?  Returns stop if so."""
        eng = ENGINE[0]
        c = eng.ctx
        if c.choice("some element", [False, True]):
            k = c.int("position")
            c.positions.append(k)
            eng.assume(T.and_(T.le(T.ZERO, k), T.lt(k, self.n)))
            if bool(self.at(k)) is not stop:
                raise PathEnd("no such element")
            return stop
        for k in c.instances:
            inside = eng.branch(T.and_(T.le(T.ZERO, k), T.lt(k, self.n)))
            if inside and bool(self.at(k)) is stop:
                raise PathEnd("no such element")
        return not stop

    def sum(self):
        from . import lazy
        eng = ENGINE[0]
        if not eng.branch(T.lt(T.ZERO, self.n)):
            return T.ZERO
        d = lazy.DEPTH[0]
        lazy.DEPTH[0] += 1
        try:
            e = self.at(lazy.bound(d))
        finally:
            lazy.DEPTH[0] -= 1
        if isinstance(e, lazy.Lazy):
            return lazy.Lazy(e.shape, lambda *i: lazy.total(self.n, lambda k: self.at(k).at(*i)))
        return lazy.linear(d, self.n, T.lift(e))

    def __symseq__(self, what, key=None, *a):
        """Smallest and largest element: one at an arbitrary position, not beaten by those at the named integers."""
        eng = ENGINE[0]
        position, what = what.startswith("arg"), what[3:] if what.startswith("arg") else what
        if what not in ("min", "max"):
            raise Unsupported("%s of a tuple of unknown length" % what)
        if not eng.branch(T.lt(T.ZERO, self.n)):
            raise ValueError("%s() arg is an empty sequence" % what)
        f = key or (lambda x: x)
        j = eng.ctx.int("arg" + what)
        eng.assume(T.and_(T.le(T.ZERO, j), T.lt(j, self.n)))
        best = self.at(j)
        kb = f(best)
        for k in eng.ctx.instances:
            kw = f(self.at(k))
            eng.assume(T.implies(T.and_(T.le(T.ZERO, k), T.lt(k, self.n)), T.le(kb, kw) if what == "min" else T.le(kw, kb)))
        eng.ctx.positions.append(j)
        return j if position else best

    def zip(self, *xs):
        n = None
        for x in xs:
            if not isinstance(x, Many):
                raise Unsupported("zip of a tuple of unknown length with another kind")
            n = x.n if n is None else T.min_(n, x.n)
        return Many(n, lambda k: tuple(x.at(k) for x in xs))

    def enum(self, start):
        return Many(self.n, lambda k: (k + start, self.at(k)))


class ManySeq(RangeSeq):
    """The elements of a Many in order: seq.k is the position of the next one."""

    def __init__(self, many):
        RangeSeq.__init__(self, 0, many.n)
        self.many = many
        self.name = "many"
        self.other = lambda c: many.at(self.k)


def _alt(fs):
    if not fs:
        return None
    if len(fs) == 1:
        return fs[0]

    def f(c):
        return c.choice("which", fs)(c)
    return f


_ABSENT = object()


def _unshared(frame, name):
    """Is the variable the only reference to its object?  (Those of the loop machinery itself do not count.)"""
    loc = frame.f_locals
    x = loc[name]
    known = [frame, sys._getframe(0), sys._getframe(1), loc]
    for loop in ENGINE[0].active:
        known += [loop.state, loop.loc, loop.frame]
    names = set(loc)
    for r in gc.get_referrers(x):
        if any(r is k for k in known) or isinstance(r, types.GeneratorType):
            continue
        if type(r) is dict and r.get(name) is x and r.keys() <= names:      # another copy of the local variables
            continue
        return False
    return True


class SymLoop:
    sym = True

    def __init__(self, seq, site, names, muts, frame):
        eng = ENGINE[0]
        c = eng.ctx
        self.seq, self.site, self.names, self.muts = seq, site, names, muts
        spec = eng.loop_spec(seq, site)
        if spec is None:
            raise Unsupported("no loop contract for %s over %s" % (site, seq.name))
        self.spec = spec
        self.loc = loc = dict(frame.f_locals)
        carried = [n for n in names if n in loc]
        missing = [r for r in spec.roles if r not in loc]
        free = [n for n in carried if n not in spec.roles or n in missing]
        if len(missing) == 1 and not free:
            free = [n for n in muts if n in loc and n not in spec.roles]
        self.alias = {r: r for r in spec.roles}
        if len(missing) == len(free) == 1:          # the variable goes by another name
            self.alias[missing[0]] = free[0]
        elif any(r not in loc for r in missing):
            raise Unsupported("loop contract of %s does not fit (no variable %s)" % (site, missing))
        # other names carried into the loop become unknown: their use before a new assignment is refused (Poison)
        n = len(seq.w)
        self._check({r: loc[n] for r, n in self.alias.items()}, [False] * n, "init")
        self.frame = frame
        cases = ["exit"] + list(range(n)) + (["other"] if seq.other else [])
        self.case = "while" if isinstance(seq, WhileSeq) else c.choice("loop", cases)
        if self.case == "exit":
            self.seen = [True] * n
        else:
            self.seen = [False if i == self.case else c.bool("seen") if spec.split else c.symbool("seen") for i in range(n)]
        if isinstance(seq, RangeSeq):
            if self.case == "exit":
                seq.k = seq.hi
            else:
                seq.k = c.int("k")
                eng.assume(T.and_(T.le(seq.lo, seq.k), T.lt(seq.k, seq.hi)))
        self.state = spec.havoc(c, seq, list(self.seen)) if spec.havoc else {}
        if spec.inv:
            for _, b in spec.inv(c, seq, self.state, list(self.seen)):
                eng.assume(b)
        if spec.on_state:
            spec.on_state(c, seq, list(self.seen))
        eng.loops_met.add(site)
        if self.case != "exit":
            eng.loops_run.add(site)
            eng.active.append(self)
        self.it = self._iter()
        self.carried = carried
        for r, n in self.alias.items():             # an object changed in place and replaced as a whole: nothing else refers to it
            if n not in names and r in self.state and type(self.state[r]) is not list:
                if n not in muts or not _unshared(frame, n):
                    raise Unsupported("loop contract of %s does not fit (%s)" % (site, n))
        # a list the body changes in place without assigning the variable: its contents become what the contract says
        kept = {n for r, n in self.alias.items() if n not in names and r in self.state and type(self.state[r]) is list}
        for r, n in self.alias.items():
            if n in kept:
                if type(loc[n]) is not list:
                    raise Unsupported("loop contract of %s does not fit (%s is no list)" % (site, n))
                loc[n][:] = self.state[r]
                self.state[r] = loc[n]
        self.lists = [(k, v, list(v)) for k, v in loc.items() if isinstance(v, (list, dict, set)) and not k.startswith("__pv") and
                      k not in kept and k not in [n for r, n in self.alias.items() if r in self.state]]

    def _check(self, state, seen, when):
        eng = ENGINE[0]
        if self.spec.inv:
            for label, b in self.spec.inv(eng.ctx, self.seq, state, seen):
                eng.check("loop %s: %s (%s)" % (self.seq.name, label, when), b, internal=True)

    def h(self, name):
        for r, n in self.alias.items():
            if n == name and r in self.state:
                return self.state[r]
        return self.loc[name] if name in self.muts else Poison()

    def has(self, name):
        return name in self.loc

    def head(self):
        """The condition of a while loop is about to be evaluated: for the first time, or after the iteration."""
        if not self.it.started:
            self.it.started = True
            self.it.snap = self.snapshot()
            return True
        self.it.step(sys._getframe(1))

    def _iter(self):
        return _Iter(self)

    def snapshot(self):
        return [(o, dict(o.__dict__)) for o in self.spec.frame]


class _Iter:
    def __init__(self, loop):
        self.loop = loop
        self.started = False

    def __iter__(self):
        return self

    def __next__(self):
        L = self.loop
        eng = ENGINE[0]
        c = eng.ctx
        if not self.started:
            self.started = True
            if L.case == "exit":
                raise StopIteration
            elem = L.elem = L.seq.w[L.case] if L.case != "other" else L.seq.other(c)
            self.snap = L.snapshot()
            return elem
        self.step(sys._getframe(1))

    def step(self, frame):
        """After an iteration: the invariant holds again."""
        L = self.loop
        loc = frame.f_locals
        seen = list(L.seen)
        if isinstance(L.case, int):
            seen[L.case] = True
        for o, d in self.snap:
            now = o.__dict__
            for k in set(d) | set(now):
                a, b = d.get(k, _ABSENT), now.get(k, _ABSENT)
                if a is b:
                    continue
                if isinstance(a, R) and isinstance(b, R) and a.m == b.m:
                    continue
                raise Unsupported("loop body modifies %r.%s" % (type(o).__name__, k))
        for k, v, before in L.lists:
            now = list(v)
            if len(now) != len(before) or any(a is not b for a, b in zip(now, before)):
                raise Unsupported("loop body modifies the container %s" % k)
        if isinstance(L.seq, RangeSeq):
            L.seq.k = L.seq.k + 1
        L._check({r: loc[n] for r, n in L.alias.items()}, seen, "step")
        raise PathEnd("loop step")
