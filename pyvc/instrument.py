"""Loads /repo's modules under the verifier: the source text is read from disk on every run and compiled after a mechanical
rewriting that keeps its meaning on ordinary values and adds what symbolic execution needs:

* `a and b`, `not a`, `a < b < c` on symbolic conditions build one condition instead of splitting the path, when the
  right-hand operands are calls-free or call only known pure functions (otherwise the path splits, as in Python);
* `for` over a symbolic sequence goes through its loop contract: the assigned names are replaced by arbitrary values that
  satisfy the invariant;
* one-generator comprehensions over a symbolic sequence are handed to it;
* imports of numpy and math, and the builtins abs/max/min/sum/any/all/sorted/int/float/round/isinstance/range, resolve to
  the definitions in proxy.py.

Nothing else is changed, nothing is dropped, and no file of /repo is written.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import proxy
from . import runtime

REPO = os.environ.get("PYVC_REPO", "/repo")
PREFIX = "highway_env"

PURE_NAMES = {"abs", "max", "min", "len", "isinstance", "float", "int", "bool", "any", "all", "sum", "getattr", "hasattr",
              "callable", "tuple", "list", "issubclass", "round", "str"}
PURE_ROOTS = {"np", "math", "utils", "numpy"}
PURE_METHODS = {"local_coordinates", "position", "heading_at", "width_at", "on_lane", "is_reachable_from", "after_end",
                "distance", "distance_with_heading", "get_lane", "lane_distance_to", "dot", "get", "is_same_road",
                "is_leading_to_road", "is_connected_road", "has_arrived", "startswith", "endswith", "is_conflict_possible",
                "keys", "values", "items", "any", "all", "sum", "index_to_speed", "speed_to_index",
                "all_side_lanes", "side_lanes", "get_closest_lane_index", "point_in_rectangle",
                "point_in_rotated_rectangle", "has_corner_inside", "rotated_rectangles_intersect", "distance_between"}


def _pure(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name):
                if f.id not in PURE_NAMES and not f.id.startswith("point_in") and not f.id.startswith("has_corner"):
                    return False
            elif isinstance(f, ast.Attribute):
                root = f.value
                while isinstance(root, ast.Attribute):
                    if root.attr == "random":
                        return False
                    root = root.value
                if not (isinstance(root, ast.Name) and root.id in PURE_ROOTS) and f.attr not in PURE_METHODS:
                    return False
                if f.attr in ("random", "put"):
                    return False
            else:
                return False
    return True


def _pure_values(node):
    """Pure, or the extreme of an elementwise function of numpy's."""
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("min", "max") and len(node.args) == 1:
        m = node.args[0]
        if isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == "map" and len(m.args) == 2:
            return all(_pure(x) for x in m.args)
    return _pure(node)


def _movable(node):
    """Can the expression be put into a lambda?"""
    for n in ast.walk(node):
        if isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
            return False
        if isinstance(n, ast.Name) and n.id in ("super", "__class__", "locals", "vars"):
            return False
    return True


def _assigned(stmts):
    names = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names:
                names.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in names:
                names.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        visit_ClassDef = visit_FunctionDef
    v = V()
    for s in stmts:
        v.visit(s)
    return [n for n in names if not n.startswith("__pv")]


def _mutated(stmts):
    """Names on which the statements call a method or store an item (lists changed in place, for example)."""
    names = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                n = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                n = n.value
            else:
                continue
            if n.id not in names:
                names.append(n.id)
    return names


def _lam(expr, arg=None):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=arg)] if arg else [], kwonlyargs=[],
                                         kw_defaults=[], defaults=[]), body=expr)


def _target(t):
    """The names a comprehension's target binds: one name, or several in a tuple (None: anything else)."""
    if isinstance(t, ast.Name):
        return t.id
    if isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts) and len({e.id for e in t.elts}) == len(t.elts):
        return [e.id for e in t.elts]


def _fun(expr, names):
    """The function of an element that computes expr."""
    if isinstance(names, str):
        return _lam(expr, names)
    f = _lam(expr)
    f.args.args = [ast.arg(arg=x) for x in names]
    return _lam(ast.Call(func=f, args=[ast.Starred(value=ast.Name(id="__pvx__", ctx=ast.Load()), ctx=ast.Load())], keywords=[]), "__pvx__")


def _pv(attr):
    return ast.Attribute(value=ast.Name(id="__pv__", ctx=ast.Load()), attr=attr, ctx=ast.Load())


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []          # 'class' / 'func'
        self.counter = 0
        self.fn = []
        self.locals = []

    # scopes
    def visit_ClassDef(self, n):
        self.scope.append("class")
        self.fn.append(n.name)
        self.generic_visit(n)
        self.scope.pop()
        self.fn.pop()
        return n

    def visit_FunctionDef(self, n):
        # decorators, defaults and annotations belong to the enclosing scope and stay as they are
        self.scope.append("func")
        self.fn.append(n.name)
        a = n.args
        args = a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]
        other = {m for s in ast.walk(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for m in s.names}
        self.locals.append(({x.arg for x in args} | set(_assigned(n.body))) - other)
        n.body = [x for s in n.body for x in self._stmt(s)]
        self.locals.pop()
        self.scope.pop()
        self.fn.pop()
        return n

    def _stmt(self, s):
        r = self.visit(s)
        return r if isinstance(r, list) else [r]

    def in_func(self):
        return "func" in self.scope and self.scope[-1] == "func"

    # expressions
    def visit_BoolOp(self, n):
        orig_pure = all(_pure(v) for v in n.values[1:]) and all(_movable(v) for v in n.values)
        self.generic_visit(n)
        if not self.in_func() or not orig_pure:
            return n
        return ast.copy_location(ast.Call(func=_pv("boolop"), args=[ast.Constant(value=isinstance(n.op, ast.And))] +
                                          [_lam(v) for v in n.values], keywords=[]), n)

    def visit_IfExp(self, n):
        ok = self.in_func() and _pure_values(n.body) and _pure_values(n.orelse) and _movable(n)
        self.generic_visit(n)
        if not ok:
            return n
        return ast.copy_location(ast.Call(func=_pv("ifexp"), args=[_lam(v) for v in (n.test, n.body, n.orelse)], keywords=[]), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and self.in_func():
            return ast.copy_location(ast.Call(func=_pv("not_"), args=[n.operand], keywords=[]), n)
        return n

    def visit_Compare(self, n):
        ok = len(n.ops) > 1 and self.in_func() and all(_pure(v) for v in n.comparators[1:]) and _movable(n) and \
            all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in n.ops)
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and self.in_func():
            call = ast.Call(func=_pv("contains"), args=[n.left, n.comparators[0]], keywords=[])
            if isinstance(n.ops[0], ast.NotIn):
                call = ast.Call(func=_pv("not_"), args=[call], keywords=[])
            return ast.copy_location(call, n)
        if not ok:
            return n
        ops = ast.Constant(value=",".join(type(o).__name__ for o in n.ops))
        return ast.copy_location(ast.Call(func=_pv("chain"), args=[ops] + [_lam(v) for v in [n.left] + n.comparators],
                                          keywords=[]), n)

    def _comp(self, n, kind):
        names = _target(n.generators[0].target)
        ok = self.in_func() and len(n.generators) == 1 and names and not n.generators[0].is_async and _movable(n)
        if not ok:
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        g = n.generators[0]
        conds = ast.List(elts=[_fun(c, names) for c in g.ifs], ctx=ast.Load())
        return ast.copy_location(ast.Call(func=_pv("comp"), args=[ast.Constant(value=kind), g.iter, _fun(n.elt, names), conds],
                                          keywords=[]), n)

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_DictComp(self, n):
        self.generic_visit(n)
        if not self.in_func():
            return n
        pairs = ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        return ast.copy_location(ast.Call(func=_pv("mkdict"), args=[pairs], keywords=[]), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        if not self.in_func():
            return n
        return ast.copy_location(ast.Call(func=_pv("mkset"), args=[ast.ListComp(elt=n.elt, generators=n.generators)], keywords=[]), n)

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    # loops
    def _loop(self, n, fn, args, stored, body):
        """The statements before a loop: the loop's contract is looked up (if the loop has one) and the variables the loop
        changes get the arbitrary values the contract allows."""
        self.counter += 1
        v = "__pv%d__" % self.counter
        site = "%s.%s#%d" % (self.modname, ".".join(self.fn), self.counter)
        muts = [m for m in _mutated(body) if m not in stored and m in self.locals[-1] and not m.startswith("__pv")]
        pre = ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())],
                         value=ast.Call(func=_pv(fn), args=args + [ast.Constant(value=x) for x in (site, tuple(stored), tuple(muts))],
                                        keywords=[]))
        hav = [ast.Assign(targets=[ast.Name(id=m, ctx=ast.Store())],
                          value=ast.Call(func=ast.Attribute(value=ast.Name(id=v, ctx=ast.Load()), attr="h",
                                                            ctx=ast.Load()), args=[ast.Constant(value=m)], keywords=[]))
               for m in stored]
        # a name the loop only changes in place may be unbound before the loop
        hav += [ast.If(test=ast.Call(func=ast.Attribute(value=ast.Name(id=v, ctx=ast.Load()), attr="has", ctx=ast.Load()),
                                     args=[ast.Constant(value=m)], keywords=[]),
                       body=[ast.Assign(targets=[ast.Name(id=m, ctx=ast.Store())],
                                        value=ast.Call(func=ast.Attribute(value=ast.Name(id=v, ctx=ast.Load()), attr="h",
                                                                          ctx=ast.Load()), args=[ast.Constant(value=m)], keywords=[]))],
                       orelse=[]) for m in muts]
        out = [pre]
        if hav:
            out.append(ast.If(test=ast.Attribute(value=ast.Name(id=v, ctx=ast.Load()), attr="sym", ctx=ast.Load()),
                              body=hav, orelse=[]))
        for o in out:
            ast.copy_location(o, n)
        return v, out

    def visit_For(self, n):
        body = n.body + n.orelse
        mods = _assigned(body)
        muts = ast.parse(ast.unparse(ast.Module(body=body, type_ignores=[]))).body
        tgt = _assigned([ast.Assign(targets=[n.target], value=ast.Constant(value=0))])
        n.iter = self.visit(n.iter)
        n.body = [x for s in n.body for x in self._stmt(s)]
        n.orelse = [x for s in n.orelse for x in self._stmt(s)]
        if not self.in_func():
            return n
        v, out = self._loop(n, "loop", [n.iter], [m for m in mods if m not in tgt], muts)
        n.iter = ast.Attribute(value=ast.Name(id=v, ctx=ast.Load()), attr="it", ctx=ast.Load())
        return out + [n]

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = [x for s in n.body for x in self._stmt(s)]
        n.orelse = [x for s in n.orelse for x in self._stmt(s)]
        return n

    def visit_While(self, n):
        body = n.body + n.orelse + [ast.Expr(value=n.test)]
        mods = _assigned(body)
        muts = ast.parse(ast.unparse(ast.Module(body=body, type_ignores=[]))).body
        n.test = self.visit(n.test)
        n.body = [x for s in n.body for x in self._stmt(s)]
        n.orelse = [x for s in n.orelse for x in self._stmt(s)]
        if not self.in_func():
            return n
        v, out = self._loop(n, "wloop", [], mods, muts)
        head = ast.Call(func=ast.Attribute(value=ast.Name(id=v, ctx=ast.Load()), attr="head", ctx=ast.Load()), args=[], keywords=[])
        n.test = ast.copy_location(ast.BoolOp(op=ast.And(), values=[head, n.test]), n)
        return out + [n]

    def visit_With(self, n):
        for i in n.items:
            i.context_expr = self.visit(i.context_expr)
        n.body = [x for s in n.body for x in self._stmt(s)]
        return n

    def visit_Try(self, n):
        n.body = [x for s in n.body for x in self._stmt(s)]
        for h in n.handlers:
            h.body = [x for s in h.body for x in self._stmt(s)]
        n.orelse = [x for s in n.orelse for x in self._stmt(s)]
        n.finalbody = [x for s in n.finalbody for x in self._stmt(s)]
        return n


def make_builtins():
    d = dict(builtins.__dict__)
    d.update(proxy.SHIMS)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == "numpy":
                return proxy.NUMPY
            if name == "math":
                return proxy.MATHM
            if name == "numpy.linalg" and fromlist:
                return proxy.NUMPY.linalg
            if name == "random":
                return runtime.RANDOM_MODULE
            if name == "numpy.random":
                return proxy.NUMPY.random if fromlist else proxy.NUMPY
        return real_import(name, globals, locals, fromlist, level)
    d["__import__"] = imp
    return d


BUILTINS = make_builtins()
SOURCES = {}


class Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path, self.ispkg = path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        SOURCES[module.__name__] = (self.path, src)
        tree = ast.parse(src, self.path)
        tree = Rewrite(module.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec")
        module.__dict__["__builtins__"] = BUILTINS
        module.__dict__["__pv__"] = runtime
        module.__file__ = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PREFIX and not name.startswith(PREFIX + "."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.isdir(base):
            return importlib.machinery.PathFinder.find_spec(name, [os.path.dirname(base)])
        elif os.path.isfile(base + ".py"):
            p, pkg = base + ".py", False
        else:
            return None
        return importlib.util.spec_from_file_location(name, p, loader=Loader(p, pkg),
                                                      submodule_search_locations=[base] if pkg else None)


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())


def install_plain():
    """The repository's own modules, unmodified, from the same tree."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
