"""Executor for plain value functions of /repo: runs the current source of a function symbolically, one path at a time (the
paths are enumerated by re-execution with a growing list of decisions).  Concrete Python objects are used natively; symbolic
values are z3 expressions (Int, Real, Bool, String) or SV objects; callees outside the package run natively on concrete
arguments and by contract on symbolic ones; functions of the package are entered, or used by contract."""
import ast
import builtins
import inspect
import time
import types
import z3
from .exec import Unsupported
from .vc import prove, Result
from .sym import limit
from . import exec as _exec
from . import fmt


class PyRaise(Exception):
    """an exception of the program"""
    def __init__(self, cls, args=()):
        super().__init__(cls)
        self.cls, self.vals = cls, tuple(args)


class Kill(Exception):
    """the path ends here"""


class _Return(Exception):
    def __init__(self, v): self.v = v


class _Break(Exception): pass
class _Continue(Exception): pass


class SV:
    """a symbolic value with its own behaviour"""
    def getattr(self, w, name): raise Unsupported("attribute %s of %s" % (name, self))
    def setattr(self, w, name, v): raise Unsupported("setting attribute %s of %s" % (name, self))
    def call(self, w, args, kw): raise Unsupported("calling %s" % self)
    def truth(self, w): raise Unsupported("truth of %s" % self)
    def eq(self, w, other): return self is other if isinstance(other, SV) else NotImplemented
    def cmp(self, w, op, other, swapped): raise Unsupported("comparing %s" % self)
    def binop(self, w, op, other, swapped): raise Unsupported("arithmetic on %s" % self)
    def getitem(self, w, k): raise Unsupported("indexing %s" % self)
    def setitem(self, w, k, v): raise Unsupported("assigning items of %s" % self)
    def delitem(self, w, k): raise Unsupported("deleting items of %s" % self)
    def iterate(self, w): raise Unsupported("iterating over %s" % self)
    def loop(self, w, fr, node): return False
    def comp(self, w, fr, node, k): return NotImplemented
    def contains(self, w, x): raise Unsupported("membership in %s" % self)
    def length(self, w): raise Unsupported("length of %s" % self)
    def isinst(self, w, cls): raise Unsupported("isinstance of %s" % self)
    def text(self, w): return Text()
    def __repr__(self): return type(self).__name__


class Text(SV):
    """a string about which nothing is known (messages)"""
    def binop(self, w, op, other, swapped): return Text()
    def isinst(self, w, cls): return issubclass(str, cls) if isinstance(cls, type) else any(issubclass(str, c) for c in cls)


class Fn(SV):
    """a callable given by a contract"""
    def __init__(self, name, f): self.name, self.f = name, f
    def call(self, w, args, kw): return self.f(w, args, kw)
    def truth(self, w): return True
    def __repr__(self): return "Fn(%s)" % self.name


class Obj(SV):
    """an instance of a class of the package"""
    def __init__(self, cls, attrs=None): self.cls, self.attrs = cls, dict(attrs or {})
    def __repr__(self): return "Obj(%s)" % self.cls.__name__

    def getattr(self, w, name):
        if name in self.attrs: return self.attrs[name]
        if name == "__class__": return self.cls
        return w.class_attr(self.cls, name, self)

    def setattr(self, w, name, v): self.attrs[name] = v
    def truth(self, w): return True
    def isinst(self, w, cls): return issubclass(self.cls, cls)

    def eq(self, w, other):
        if self is other: return True
        for c in self.cls.__mro__:
            if "__eq__" in c.__dict__ and c is not object: raise Unsupported("__eq__ of %s" % self)
        return False

    def call(self, w, args, kw): return w.call(self.getattr(w, "__call__"), args, kw)


class Bound(SV):
    def __init__(self, f, me): self.f, self.me = f, me
    def call(self, w, args, kw): return w.call(self.f, [self.me] + list(args), kw)
    def truth(self, w): return True


class Meth(SV):
    """a method of a concrete object"""
    def __init__(self, recv, name): self.recv, self.name = recv, name

    def call(self, w, args, kw):
        h = w.methods.get((type(self.recv), self.name))
        if h is not None:
            r = h(w, self.recv, args, kw)
            if r is not NotImplemented: return r
        f = getattr(self.recv, self.name)
        if isinstance(self.recv, dict) and self.name in ("get", "pop", "setdefault", "__getitem__") and args and w.by_value(args[0]):
            if self.name not in ("get", "__getitem__"): raise Unsupported("dict.%s with a symbolic key" % self.name)
            return w.lookup(self.recv, args[0], args[1] if len(args) > 1 else None if self.name == "get" else KeyError)
        if w.concrete(args) and w.concrete(kw) or isinstance(self.recv, (list, set)) and self.name in ("append", "extend", "add", "insert", "pop", "clear") \
                or isinstance(self.recv, dict) and self.name in ("get", "pop", "setdefault", "update", "keys", "values", "items", "clear"):
            return w.native(f, args, kw)
        if isinstance(self.recv, str) and self.name == "format":
            bad = fmt.braces(self.recv, args, kw)
            if bad is not None: raise PyRaise(bad, ("formatting",))
            return Text()
        raise Unsupported("method %s of %s on symbolic arguments" % (self.name, type(self.recv).__name__))

    def truth(self, w): return True


class Super(SV):
    def __init__(self, cls, me): self.cls, self.me = cls, me

    def getattr(self, w, name):
        k = self.me.cls if isinstance(self.me, Obj) else type(self.me)
        mro = list(k.__mro__)
        for c in mro[mro.index(self.cls) + 1:]:
            if name in c.__dict__: return w.bind(c.__dict__[name], self.me, k)
        raise PyRaise(AttributeError, (name,))


class Clo(SV):
    """a function defined by interpreted code"""
    def __init__(self, node, frame, defaults, kwdefaults): self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
    def truth(self, w): return True

    def call(self, w, args, kw):
        return w.run(self.node, args, kw, self.defaults, self.kwdefaults, parent=self.frame, g=self.frame.g, owner=self.frame.owner)


class Partial(SV):
    def __init__(self, f, args, kw): self.f, self.args, self.kw = f, args, kw
    def call(self, w, args, kw): return w.call(self.f, list(self.args) + list(args), {**self.kw, **kw})
    def truth(self, w): return True


class Frame:
    def __init__(self, g, parent, cells, owner, locs):
        self.vars, self.g, self.parent, self.cells, self.owner, self.locs = {}, g, parent, cells, owner, locs
        self.nonlocals, self.globals_, self.exc = set(), set(), None


def isz(v): return isinstance(v, z3.ExprRef)


def symbolic(v): return isinstance(v, (SV, z3.ExprRef))


_locs = {}


def local_names(node):
    if node in _locs: return _locs[node]
    out, non = set(), set()

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and not top:
            if not isinstance(n, ast.Lambda): out.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            visit(n.generators[0].iter)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update((a.asname or a.name).split(".")[0] for a in n.names)
        if isinstance(n, (ast.Global, ast.Nonlocal)): non.update(n.names)
        for c in ast.iter_child_nodes(n): visit(c)
    a = node.args
    out.update(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
    for s in (node.body if isinstance(node.body, list) else [node.body]): visit(s)
    _locs[node] = out - non
    return _locs[node]


def assigned(nodes):
    """local names a piece of code assigns"""
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): out.add(x.id)
    return out


OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Mod: lambda a, b: a % b, ast.FloorDiv: lambda a, b: a // b,
       ast.Div: lambda a, b: a / b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.Pow: lambda a, b: a ** b, ast.BitXor: lambda a, b: a ^ b,
       ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b}
CMP = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}


def lift(v, like):
    """a concrete value as an expression of the sort of `like`"""
    if isz(v): return v
    s = like.sort()
    if s == z3.IntSort():
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
    if s == z3.RealSort():
        import decimal, fractions
        if isinstance(v, (int, float, decimal.Decimal, fractions.Fraction)):
            try:
                return z3.RealVal(str(fractions.Fraction(v)))
            except (ValueError, OverflowError):
                return None
    if s == z3.StringSort() and isinstance(v, str): return z3.StringVal(v)
    if s == z3.BoolSort() and isinstance(v, (bool, int)): return z3.BoolVal(bool(v))
    return None


class World:
    MAXPATHS = 4000

    def __init__(self, name, led=None):
        self.name = name
        self.contracts, self.methods, self.replace, self._keep = {}, {}, {}, []
        self.results, self.used = [], {}
        self.base = []                    # assumptions valid on every path (axioms)
        self.hooks, self.named = {}, {}
        self.interp_prefix = ("owlrl",)
        self.counter = 0

    # ----- contracts
    def contract(self, fn, h):
        self.contracts[id(fn)] = h
        self._keep.append(fn)

    def substitute(self, old, new):
        self.replace[id(old)] = new
        self._keep.append(old)

    # ----- paths
    def explore(self, body):
        """runs body(self) once per feasible path"""
        todo = [[]]
        n = 0
        while todo:
            self.plan = todo.pop()
            self.pos, self.taken, self.pc, self.fork, self.counter, self.depth = 0, [], [], [], 0, 0
            self.path, self.solver, self.in_solver = n, None, 0
            n += 1
            if n > self.MAXPATHS: raise Unsupported("more than %d paths in %s" % (self.MAXPATHS, self.name))
            try:
                body(self)
            except Kill:
                pass
            except PyRaise as e:
                self.fail("no exception escapes", "%s escapes on the path %s" % (e.cls.__name__, self.show()))
            todo.extend(self.fork)
        self.paths = n
        return n

    def show(self): return "; ".join(str(z3.simplify(c))[:120] for c in self.pc if not z3.is_quantifier(c))[:600] or "(unconditional)"

    def fresh(self, name, sort):
        self.counter += 1
        return z3.Const("%s!%d" % (name, self.counter), sort)

    def feasible(self, c):
        if self.solver is None:
            self.solver, self.in_solver = z3.Solver(), 0
            limit(self.solver, 1500)
            self.solver.add(*self.base)
        self.solver.add(*self.pc[self.in_solver:])
        self.in_solver = len(self.pc)
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def sub(self, f):
        """all paths of f() from here: list of (conditions, outcome); an outcome is ('value', v), ('return', v), ('break',), ('raise', e)"""
        saved = self.plan, self.pos, self.taken, self.fork, self.pc, self.solver, self.in_solver
        out, todo, n = [], [[]], 0
        try:
            while todo:
                self.plan = todo.pop()
                self.pos, self.taken, self.fork, self.pc, self.solver, self.in_solver = 0, [], [], list(saved[4]), None, 0
                n += 1
                if n > 500: raise Unsupported("too many paths in a loop body")
                try:
                    r = ("value", f())
                except Kill:
                    r = None
                except _Return as e:
                    r = ("return", e.v)
                except _Break:
                    r = ("break",)
                except _Continue:
                    r = ("value", None)
                except PyRaise as e:
                    r = ("raise", e)
                if r is not None: out.append((self.pc[len(saved[4]):], r))
                todo.extend(self.fork)
        finally:
            self.plan, self.pos, self.taken, self.fork, self.pc, self.solver, self.in_solver = saved
        return out

    def choose(self, n):
        """nondeterministic choice among n alternatives"""
        if self.pos < len(self.plan):
            k = self.plan[self.pos]
        else:
            k = 0
            for j in range(1, n): self.fork.append(self.taken + [j])
        self.pos += 1
        self.taken.append(k)
        return k

    def decide(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.plan):
            k = self.plan[self.pos]
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if not t and not f: raise Kill()
            k = 1 if t else 0
            if t and f: self.fork.append(self.taken + [0])
        self.pos += 1
        self.taken.append(k)
        self.pc.append(c if k else z3.Not(c))
        return bool(k)

    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise Kill()
            return
        c = z3.simplify(c)
        if z3.is_true(c): return
        self.pc.append(c)

    def prove(self, name, goal, extra=()):
        nm = "%s: %s [path %d]" % (self.name, name, self.path)
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        r = prove(nm, list(self.base) + list(self.pc) + list(extra), goal, raw=True)
        if r.status != "proved": r.detail = "%s | path: %s" % (r.detail, self.show())
        self.results.append(r)
        return r.status == "proved"

    def fail(self, name, detail):
        # an infeasible path fails nothing
        if self.pc and not self.feasible(z3.BoolVal(True)): return
        self.results.append(Result("%s: %s [path %d]" % (self.name, name, self.path), "failed", 0.0, "executor", detail))

    def ok(self, name): self.results.append(Result("%s: %s [path %d]" % (self.name, name, self.path), "proved", 0.0, "executor"))

    # ----- calls
    def concrete(self, x):
        if isinstance(x, dict) and type(x) is dict: return all(self.concrete(k) and self.concrete(v) for k, v in x.items())
        if type(x) in (list, tuple, set, frozenset): return all(self.concrete(v) for v in x)
        return not symbolic(x)

    def native(self, f, args, kw):
        try:
            return f(*args, **kw)
        except (Kill, Unsupported, PyRaise, RecursionError):
            raise
        except Exception as e:
            raise PyRaise(type(e), e.args)

    def bind(self, f, me, k):
        if isinstance(f, staticmethod): return f.__func__
        if isinstance(f, classmethod): return Bound(f.__func__, k)
        if isinstance(f, property): return self.call(f.fget, [me], {})
        if isinstance(f, (types.FunctionType, types.BuiltinFunctionType)) or type(f).__name__ in ("method_descriptor", "wrapper_descriptor"): return Bound(f, me)
        return self.replace.get(id(f), f)

    def class_attr(self, cls, name, me):
        for c in cls.__mro__:
            if name in c.__dict__: return self.bind(c.__dict__[name], me, cls)
        raise PyRaise(AttributeError, (name,))

    def of_package(self, f): return (getattr(f, "__module__", None) or "").split(".")[0] in self.interp_prefix

    def call(self, f, args, kw):
        args = list(args)
        if id(f) in self.contracts:
            r = self.contracts[id(f)](self, args, kw)
            if r is not NotImplemented: return r
        if isinstance(f, SV): return f.call(self, args, kw)
        if self.named and isinstance(f, types.BuiltinFunctionType) and f.__qualname__ in self.named:
            r = self.named[f.__qualname__](self, args, kw)
            if r is not NotImplemented: return r
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kw)
        if isinstance(f, types.FunctionType) and self.of_package(f): return self.interpret(f, args, kw)
        if isinstance(f, type) and self.of_package(f) and not issubclass(f, BaseException):
            me = Obj(f)
            for c in f.__mro__:
                if "__init__" in c.__dict__:
                    if isinstance(c.__dict__["__init__"], types.FunctionType): self.call(c.__dict__["__init__"], [me] + args, kw)
                    break
            return me
        b = BUILTIN.get(f) if self.hashable(f) else None
        if b is not None:
            r = b(self, args, kw)
            if r is not NotImplemented: return r
        if self.concrete(args) and self.concrete(kw): return self.native(f, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException): return f            # an exception class with a message
        raise Unsupported("call of %s on symbolic arguments" % (getattr(f, "__qualname__", f),))

    def hashable(self, f):
        try:
            hash(f)
            return True
        except TypeError:
            return False

    def interpret(self, fn, args, kw):
        node = _exec.func_ast(fn)
        code = fn.__code__
        cells = dict(zip(code.co_freevars, fn.__closure__ or ()))
        owner = None
        q = fn.__qualname__.split(".")
        if len(q) > 1 and q[-2] != "<locals>": owner = q[-2]
        ownercls = fn.__globals__.get(owner) if owner else None
        self.used.setdefault("%s.%s" % (fn.__module__, fn.__qualname__), 0)
        self.used["%s.%s" % (fn.__module__, fn.__qualname__)] += 1
        return self.run(node, args, kw, fn.__defaults__ or (), fn.__kwdefaults__ or {}, g=fn.__globals__, cells=cells, owner=(owner, ownercls))

    def run(self, node, args, kw, defaults, kwdefaults, parent=None, g=None, cells=None, owner=None):
        self.depth += 1
        if self.depth > 60: raise Unsupported("call depth")
        try:
            fr = Frame(g, parent, cells or {}, owner, local_names(node))
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            kw = dict(kw)
            rest = list(args)
            for k, nm in enumerate(names):
                if rest: fr.vars[nm] = rest.pop(0)
                elif nm in kw: fr.vars[nm] = kw.pop(nm)
                else:
                    j = k - (len(names) - len(defaults))
                    if j < 0: raise PyRaise(TypeError, ("missing argument %s" % nm,))
                    fr.vars[nm] = defaults[j]
            if a.vararg: fr.vars[a.vararg.arg] = tuple(rest)
            elif rest: raise PyRaise(TypeError, ("too many arguments",))
            for x in a.kwonlyargs:
                if x.arg in kw: fr.vars[x.arg] = kw.pop(x.arg)
                elif x.arg in kwdefaults: fr.vars[x.arg] = kwdefaults[x.arg]
                else: raise PyRaise(TypeError, ("missing argument %s" % x.arg,))
            if a.kwarg: fr.vars[a.kwarg.arg] = kw
            elif kw: raise PyRaise(TypeError, ("unexpected argument %s" % list(kw)[0],))
            if isinstance(node, ast.Lambda): return self.ev(fr, node.body)
            try:
                self.block(fr, node.body)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ----- statements
    def block(self, fr, stmts):
        for s in stmts: self.stmt(fr, s)

    def stmt(self, fr, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unsupported("statement %s" % type(s).__name__)
        return m(fr, s)

    def s_Pass(self, fr, s): pass
    def s_Expr(self, fr, s): self.ev(fr, s.value)
    def s_Return(self, fr, s): raise _Return(self.ev(fr, s.value) if s.value else None)
    def s_Break(self, fr, s): raise _Break()
    def s_Continue(self, fr, s): raise _Continue()
    def s_Nonlocal(self, fr, s): fr.nonlocals.update(s.names)
    def s_Global(self, fr, s): raise Unsupported("global statement")

    def s_Import(self, fr, s):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            fr.vars[a.asname or a.name.split(".")[0]] = m if a.asname else importlib.import_module(a.name.split(".")[0])

    def s_ImportFrom(self, fr, s):
        import importlib
        m = importlib.import_module("." * s.level + (s.module or ""), fr.g.get("__package__") or fr.g.get("__name__"))
        for a in s.names: fr.vars[a.asname or a.name] = getattr(m, a.name)

    def s_FunctionDef(self, fr, s):
        f = Clo(s, fr, [self.ev(fr, d) for d in s.args.defaults], {x.arg: self.ev(fr, d) for x, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        for d in reversed(s.decorator_list):
            dd = self.ev(fr, d)
            f = self.call(dd, [f], {})
        self.store(fr, s.name, f)

    def s_Assign(self, fr, s):
        v = self.ev(fr, s.value)
        for t in s.targets: self.assign(fr, t, v)

    def s_AnnAssign(self, fr, s):
        if s.value is not None: self.assign(fr, s.target, self.ev(fr, s.value))

    def s_AugAssign(self, fr, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name_(fr, t.id)
            self.store(fr, t.id, self.inplace(s.op, old, self.ev(fr, s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(fr, t.value)
            n = self.mangle(fr, t.attr)
            self.setattr_(o, n, self.inplace(s.op, self.getattr_(o, n), self.ev(fr, s.value)))
        else:
            o, k = self.ev(fr, t.value), self.ev(fr, t.slice)
            self.setitem(o, k, self.inplace(s.op, self.getitem(o, k), self.ev(fr, s.value)))

    def inplace(self, op, a, b):
        if isinstance(a, list) and isinstance(op, ast.Add) and isinstance(b, (list, tuple)):
            a.extend(b)
            return a
        return self.binop(op, a, b)

    def s_Delete(self, fr, s):
        for t in s.targets:
            if isinstance(t, ast.Name): fr.vars.pop(t.id)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(fr, t.value), self.ev(fr, t.slice)
                if isinstance(o, SV): o.delitem(self, k)
                elif self.concrete(k): self.native(o.__delitem__, [k], {})
                else: raise Unsupported("del")
            else: raise Unsupported("del")

    def s_Assert(self, fr, s):
        if not self.truth(self.ev(fr, s.test)): raise PyRaise(AssertionError, ())

    def s_If(self, fr, s): self.block(fr, s.body if self.truth(self.ev(fr, s.test)) else s.orelse)

    def s_While(self, fr, s):
        h = self.hooks.get("while")
        if h is not None and h(self, fr, s): return
        n = 0
        while True:
            if not self.truth(self.ev(fr, s.test)):
                self.block(fr, s.orelse)
                return
            n += 1
            if n > 300: raise Unsupported("while loop without invariant")
            try:
                self.block(fr, s.body)
            except _Break:
                return
            except _Continue:
                pass

    def s_For(self, fr, s):
        it = self.ev(fr, s.iter)
        if isinstance(it, SV):
            r = it.loop(self, fr, s)
            if r: return
            it = it.iterate(self)
        elif isz(it):
            raise Unsupported("iterating over %s" % it)
        for x in self.native_iter(it):
            self.assign(fr, s.target, x)
            try:
                self.block(fr, s.body)
            except _Break:
                return
            except _Continue:
                continue
        self.block(fr, s.orelse)

    def native_iter(self, it):
        try:
            return list(it) if not isinstance(it, (list, tuple)) else it
        except TypeError as e:
            raise PyRaise(TypeError, e.args)

    def s_Raise(self, fr, s):
        if s.exc is None:
            if fr.exc is None: raise Unsupported("raise without exception")
            raise fr.exc
        e = self.ev(fr, s.exc)
        if isinstance(e, PyRaise): raise e
        if isinstance(e, type) and issubclass(e, BaseException): raise PyRaise(e)
        if isinstance(e, BaseException): raise PyRaise(type(e), e.args)
        raise Unsupported("raising %s" % (e,))

    def s_Try(self, fr, s):
        try:
            try:
                self.block(fr, s.body)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.matches(e, self.ev(fr, h.type)):
                        old, fr.exc = fr.exc, e
                        if h.name: fr.vars[h.name] = ExcVal(e)
                        try:
                            self.block(fr, h.body)
                        finally:
                            fr.exc = old
                            if h.name: fr.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(fr, s.orelse)
        except (PyRaise, _Return, _Break, _Continue):
            self.block(fr, s.finalbody)
            raise
        self.block(fr, s.finalbody)

    def matches(self, e, c):
        cs = c if isinstance(c, tuple) else (c,)
        return any(issubclass(e.cls, x) for x in cs)

    def s_With(self, fr, s):
        its = []
        for i in s.items:
            m = self.ev(fr, i.context_expr)
            v = self.call(self.getattr_(m, "__enter__"), [], {})
            if i.optional_vars is not None: self.assign(fr, i.optional_vars, v)
            its.append(m)
        try:
            self.block(fr, s.body)
        except PyRaise as e:
            for m in reversed(its):
                if self.truth(self.call(self.getattr_(m, "__exit__"), [e.cls, ExcVal(e), None], {})): return
            raise
        except (_Return, _Break, _Continue):
            for m in reversed(its): self.call(self.getattr_(m, "__exit__"), [None, None, None], {})
            raise
        for m in reversed(its): self.call(self.getattr_(m, "__exit__"), [None, None, None], {})

    # ----- names, attributes, items
    def mangle(self, fr, n):
        if n.startswith("__") and not n.endswith("__") and fr.owner and fr.owner[0]: return "_%s%s" % (fr.owner[0].lstrip("_"), n)
        return n

    def name_(self, fr, n):
        n0, n = n, self.mangle(fr, n)
        f = fr
        while f is not None:
            if n in f.vars: return f.vars[n]
            if n in f.locs and f is fr and n not in fr.nonlocals: raise PyRaise(UnboundLocalError, (n,))
            if n in f.cells:
                v = f.cells[n].cell_contents
                return self.replace.get(id(v), v)
            f = f.parent
        if n in fr.g: v = fr.g[n]
        elif hasattr(builtins, n): v = getattr(builtins, n)
        elif n0 == "__class__" and fr.owner: v = fr.owner[1]
        else: raise PyRaise(NameError, (n,))
        return self.replace.get(id(v), v)

    def store(self, fr, n, v):
        n = self.mangle(fr, n)
        if n in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if n in f.locs:
                    f.vars[n] = v
                    return
                f = f.parent
            raise Unsupported("nonlocal %s" % n)
        fr.vars[n] = v

    def assign(self, fr, t, v):
        if isinstance(t, ast.Name): self.store(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, SV): v = v.iterate(self)
            if isz(v): raise Unsupported("unpacking %s" % v)
            v = list(self.native_iter(v))
            stars = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                k = stars[0]
                after = len(t.elts) - k - 1
                if len(v) < len(t.elts) - 1: raise PyRaise(ValueError, ("not enough values to unpack",))
                v = v[:k] + [v[k:len(v) - after]] + v[len(v) - after:]
            if len(v) != len(t.elts): raise PyRaise(ValueError, ("unpacking",))
            for x, y in zip(t.elts, v): self.assign(fr, x.value if isinstance(x, ast.Starred) else x, y)
        elif isinstance(t, ast.Attribute): self.setattr_(self.ev(fr, t.value), self.mangle(fr, t.attr), v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(fr, t.value), self.ev(fr, t.slice), v)
        else: raise Unsupported("assignment to %s" % type(t).__name__)

    def getattr_(self, o, n):
        if isinstance(o, SV): return o.getattr(self, n)
        if isz(o):
            h = self.hooks.get("zattr")
            r = h(self, o, n) if h else None
            if r is None: raise Unsupported("attribute %s of %s" % (n, o.sort()))
            return r
        if isinstance(o, PyRaise): return ()
        if not isinstance(o, (type, types.ModuleType)) and not hasattr(o, n): raise PyRaise(AttributeError, (n,))
        if isinstance(o, type) and self.of_package(o):
            for c in o.__mro__:
                if n in c.__dict__:
                    v = c.__dict__[n]
                    if isinstance(v, staticmethod): return v.__func__
                    if isinstance(v, classmethod): return Bound(v.__func__, o)
                    h = self.hooks.get("classattr")
                    if h is not None:
                        r = h(self, o, n)
                        if r is not None: return r
                    return self.replace.get(id(v), v)
        try:
            v = getattr(o, n)
        except Exception as e:
            raise PyRaise(type(e), e.args)
        if callable(v) and not isinstance(o, (type, types.ModuleType)) and not isinstance(v, type) and not isinstance(v, types.MethodType): return Meth(o, n)
        return self.replace.get(id(v), v)

    def setattr_(self, o, n, v):
        if isinstance(o, SV): o.setattr(self, n, v)
        else:
            h = self.hooks.get("setattr")
            if h is None or not h(self, o, n, v): raise Unsupported("setting attribute %s of %s" % (n, o))

    def getitem(self, o, k):
        if isinstance(o, SV): return o.getitem(self, k)
        if isz(o):
            if o.sort() == z3.StringSort(): return self.string_item(o, k)
            raise Unsupported("indexing %s" % o.sort())
        if isinstance(o, dict) and self.by_value(k): return self.lookup(o, k, KeyError)
        if isinstance(k, SV) and not self.concrete(k) or isz(k):
            h = self.hooks.get("getitem")
            r = h(self, o, k) if h else NotImplemented
            if r is NotImplemented: raise Unsupported("indexing with %s" % k)
            return r
        return self.native(lambda: o[k], [], {})

    def by_value(self, k): return isz(k) or getattr(k, "by_value", False)

    def lookup(self, d, k, default):
        """a dictionary item by a symbolic key: one path per equal key"""
        for x, v in d.items():
            if self.truth(self.eq(x, k)): return v
        if default is KeyError: raise PyRaise(KeyError, (k,))
        return default

    def string_item(self, o, k):
        n = z3.Length(o)
        if isinstance(k, slice):
            if k.step is not None: raise Unsupported("slice step")

            def pos(x, d):
                if x is None: return d
                x = lift(x, n)
                x = z3.If(x < 0, z3.If(x + n < 0, 0, x + n), z3.If(x > n, n, x))
                return x
            a, b = pos(k.start, z3.IntVal(0)), pos(k.stop, n)
            return z3.SubString(o, a, z3.If(b > a, b - a, 0))
        k = lift(k, n)
        if self.decide(z3.And(k >= 0, k < n)): return z3.SubString(o, k, 1)
        if self.decide(z3.And(k < 0, k + n >= 0)): return z3.SubString(o, k + n, 1)
        raise PyRaise(IndexError, ("string index out of range",))

    def setitem(self, o, k, v):
        if isinstance(o, SV): return o.setitem(self, k, v)
        if not self.concrete(k): raise Unsupported("assigning item %s" % (k,))
        self.native(o.__setitem__, [k, v], {})

    # ----- truth and comparison
    def truth(self, v):
        if isinstance(v, bool) or v is None: return bool(v)
        if isz(v):
            if v.sort() == z3.BoolSort(): return self.decide(v)
            if v.sort() in (z3.IntSort(), z3.RealSort()): return self.decide(v != 0)
            if v.sort() == z3.StringSort(): return self.decide(z3.Length(v) > 0)
            raise Unsupported("truth of %s" % v)
        if isinstance(v, SV):
            r = v.truth(self)
            return self.decide(r) if isz(r) else bool(r)
        return bool(v)

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SV):
                r = x.eq(self, y)
                if r is not NotImplemented: return r
        if isinstance(a, SV) or isinstance(b, SV): return False
        if isz(a) or isz(b):
            e, o = (a, b) if isz(a) else (b, a)
            if isz(o) and o.sort() == e.sort(): return e == o
            if isz(o) and {o.sort(), e.sort()} == {z3.IntSort(), z3.RealSort()}: return z3.ToReal(e) == o if e.sort() == z3.IntSort() else e == z3.ToReal(o)
            if isz(o): return False
            l = lift(o, e)
            return False if l is None else e == l
        if type(a) in (list, tuple) and type(a) is type(b) and not (self.concrete(a) and self.concrete(b)):
            if len(a) != len(b): return False
            rs = [self.eq(x, y) for x, y in zip(a, b)]
            if all(isinstance(r, bool) for r in rs): return all(rs)
            return z3.And(*[r if isz(r) else z3.BoolVal(r) for r in rs])
        return self.native(lambda: a == b, [], {})

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            return z3.Not(r) if isz(r) else not r
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b or (isz(a) and isz(b) and a.eq(b))
            for x, y in ((a, b), (b, a)):
                if not r and hasattr(x, "is_"): r = x.is_(self, y)
            if isz(r): return r if isinstance(op, ast.Is) else z3.Not(r)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.In): return r
            return z3.Not(r) if isz(r) else not r
        if isinstance(a, SV): return a.cmp(self, op, b, False)
        if isinstance(b, SV): return b.cmp(self, op, a, True)
        if isz(a) or isz(b):
            e = a if isz(a) else b
            x, y = lift(a, e), lift(b, e)
            if x is None or y is None: raise PyRaise(TypeError, ("comparison",))
            if x.sort() != y.sort():
                if {x.sort(), y.sort()} != {z3.IntSort(), z3.RealSort()}: raise PyRaise(TypeError, ("comparison",))
                x, y = [z3.ToReal(q) if q.sort() == z3.IntSort() else q for q in (x, y)]
            return CMP[type(op)](x, y)
        return self.native(lambda: CMP[type(op)](a, b), [], {})

    def contains(self, box, x):
        if isinstance(box, SV): return box.contains(self, x)
        if isz(box):
            if box.sort() == z3.StringSort():
                l = lift(x, box)
                if l is None: raise PyRaise(TypeError, ("in",))
                return z3.Contains(box, l)
            raise Unsupported("membership in %s" % box.sort())
        if self.concrete(box) and self.concrete(x): return self.native(lambda: x in box, [], {})
        if isinstance(box, str):
            if isz(x) and x.sort() == z3.StringSort(): return z3.Contains(z3.StringVal(box), x)
            raise Unsupported("symbolic part of a string")
        rs = []
        for y in box:
            if y is x: return True
            r = self.eq(y, x)
            if r is True: return True
            if r is not False: rs.append(r)
        return z3.Or(*rs) if rs else False

    def binop(self, op, a, b):
        if isinstance(a, SV): return a.binop(self, op, b, False)
        if isinstance(b, SV) and not (isinstance(a, str) and isinstance(op, ast.Mod)) and not (isinstance(a, (list, tuple)) and isinstance(op, ast.Add)):
            return b.binop(self, op, a, True)
        if isinstance(a, str) and isinstance(op, ast.Mod) and not self.concrete(b):
            bad = fmt.percent(a, b, lambda x: False if isinstance(x, (str, Text)) or x is None else None)
            if bad is not None: raise PyRaise(bad, ("formatting",))
            return Text()
        if isz(a) or isz(b):
            e = a if isz(a) else b
            x, y = lift(a, e), lift(b, e)
            if x is None or y is None: raise Unsupported("arithmetic on %s and %s" % (a, b))
            if {x.sort(), y.sort()} == {z3.IntSort(), z3.RealSort()}:
                x, y = [z3.ToReal(q) if q.sort() == z3.IntSort() else q for q in (x, y)]
            if x.sort() == z3.StringSort():
                if isinstance(op, ast.Add): return z3.Concat(x, y)
                raise Unsupported("string operator")
            if type(op) in (ast.Add, ast.Sub, ast.Mult): return OPS[type(op)](x, y)
            if isinstance(op, ast.Mod) and isinstance(b, int) and b > 0: return x % y
            if isinstance(op, ast.FloorDiv) and isinstance(b, int) and b > 0 and x.sort() == z3.IntSort(): return x / y
            if isinstance(op, ast.BitAnd) and isinstance(b, int) and b > 0 and b & (b + 1) == 0 and x.sort() == z3.IntSort(): return x % (b + 1)
            raise Unsupported("operator %s" % type(op).__name__)
        return self.native(lambda: OPS[type(op)](a, b), [], {})

    # ----- expressions
    def ev(self, fr, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression %s" % type(e).__name__)
        return m(fr, e)

    def e_Constant(self, fr, e): return e.value
    def e_Name(self, fr, e): return self.name_(fr, e.id)
    def e_Attribute(self, fr, e): return self.getattr_(self.ev(fr, e.value), self.mangle(fr, e.attr))
    def e_Subscript(self, fr, e): return self.getitem(self.ev(fr, e.value), self.ev(fr, e.slice))
    def e_Slice(self, fr, e): return slice(*[self.ev(fr, x) if x is not None else None for x in (e.lower, e.upper, e.step)])
    def e_BinOp(self, fr, e): return self.binop(e.op, self.ev(fr, e.left), self.ev(fr, e.right))
    def e_IfExp(self, fr, e): return self.ev(fr, e.body if self.truth(self.ev(fr, e.test)) else e.orelse)

    def e_NamedExpr(self, fr, e):
        v = self.ev(fr, e.value)
        self.assign(fr, e.target, v)
        return v

    def e_UnaryOp(self, fr, e):
        v = self.ev(fr, e.operand)
        if isinstance(e.op, ast.Not):
            if isz(v) and v.sort() == z3.BoolSort(): return z3.Not(v)
            return not self.truth(v)
        if isinstance(v, SV): raise Unsupported("unary operator on %s" % v)
        if isinstance(e.op, ast.USub): return -v
        if isinstance(e.op, ast.UAdd): return +v if not isz(v) else v
        raise Unsupported("unary operator")

    def e_BoolOp(self, fr, e):
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(fr, x)
            if k == len(e.values) - 1: return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t: return False if isz(v) and v.sort() == z3.BoolSort() else v
            if isinstance(e.op, ast.Or) and t: return True if isz(v) and v.sort() == z3.BoolSort() else v
        return v

    def e_Compare(self, fr, e):
        a = self.ev(fr, e.left)
        r = True
        for k, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(fr, x)
            r = self.compare(op, a, b)
            if k < len(e.ops) - 1 and not self.truth(r): return False
            a = b
        return r

    def e_Tuple(self, fr, e): return tuple(self.elts(fr, e))
    def e_List(self, fr, e): return list(self.elts(fr, e))

    def elts(self, fr, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(fr, x.value)
                out.extend(v.iterate(self) if isinstance(v, SV) else self.native_iter(v))
            else: out.append(self.ev(fr, x))
        return out

    def e_Set(self, fr, e):
        v = self.elts(fr, e)
        if not self.concrete(v): raise Unsupported("set of symbolic values")
        return set(v)

    def e_Dict(self, fr, e):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(fr, v)
                if not isinstance(d, dict): raise Unsupported("dict display")
                out.update(d)
            else:
                kk = self.ev(fr, k)
                if symbolic(kk): raise Unsupported("symbolic key")
                out[kk] = self.ev(fr, v)
        return out

    def e_JoinedStr(self, fr, e):
        parts = [self.ev(fr, v.value) if isinstance(v, ast.FormattedValue) else v.value for v in e.values]
        if any(isinstance(v, ast.FormattedValue) and not self.concrete(p) for v, p in zip(e.values, parts)): return Text()
        out = ""
        for v, p in zip(e.values, parts):
            if isinstance(v, ast.FormattedValue):
                spec = self.ev(fr, v.format_spec) if v.format_spec else ""
                out += format({-1: lambda x: x, 115: str, 114: repr, 97: ascii}[v.conversion](p), spec)
            else: out += p
        return out

    def e_Lambda(self, fr, e): return Clo(e, fr, [self.ev(fr, d) for d in e.args.defaults], {x.arg: self.ev(fr, d) for x, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None})

    def e_Call(self, fr, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and fr.owner:
            f0 = fr
            return Super(fr.owner[1], f0.vars[list(f0.vars)[0]])
        f = self.ev(fr, e.func)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(fr, x.value)
                args.extend(v.iterate(self) if isinstance(v, SV) else self.native_iter(v))
            else: args.append(self.ev(fr, x))
        kw = {}
        for k in e.keywords:
            v = self.ev(fr, k.value)
            if k.arg is None: kw.update(v)
            else: kw[k.arg] = v
        return self.call(f, args, kw)

    def comp(self, fr, e, emit):
        f2 = Frame(fr.g, fr, {}, fr.owner, set())

        def go(k):
            if k == len(e.generators):
                emit(f2)
                return
            gen = e.generators[k]
            it = self.ev(f2 if k else fr, gen.iter)
            if isinstance(it, SV): it = it.iterate(self)
            elif isz(it): raise Unsupported("iterating over %s" % it)
            for x in self.native_iter(it):
                self.assign_comp(f2, gen.target, x)
                if all(self.truth(self.ev(f2, c)) for c in gen.ifs): go(k + 1)
        go(0)

    def assign_comp(self, f2, t, x):
        f2.locs |= assigned([t])
        self.assign(f2, t, x)

    def e_ListComp(self, fr, e):
        if len(e.generators) == 1:
            it = self.ev(fr, e.generators[0].iter)
            if isinstance(it, SV):
                r = it.comp(self, fr, e, "list")
                if r is not NotImplemented: return r
        out = []
        self.comp(fr, e, lambda f: out.append(self.ev(f, e.elt)))
        return out

    def e_GeneratorExp(self, fr, e):
        if len(e.generators) == 1:
            it = self.ev(fr, e.generators[0].iter)
            if isinstance(it, SV):
                r = it.comp(self, fr, e, "gen")
                if r is not NotImplemented: return r
        out = []
        self.comp(fr, e, lambda f: out.append(self.ev(f, e.elt)))
        return out

    def e_SetComp(self, fr, e):
        out = []
        self.comp(fr, e, lambda f: out.append(self.ev(f, e.elt)))
        if not self.concrete(out): raise Unsupported("set of symbolic values")
        return set(out)

    def e_DictComp(self, fr, e):
        out = {}

        def emit(f):
            k = self.ev(f, e.key)
            if symbolic(k): raise Unsupported("symbolic key")
            out[k] = self.ev(f, e.value)
        self.comp(fr, e, emit)
        return out


class ExcVal(SV):
    def __init__(self, e): self.e = e
    def getattr(self, w, name):
        if name == "args": return self.e.vals
        raise Unsupported("attribute of exception")
    def isinst(self, w, cls): return issubclass(self.e.cls, cls)
    def truth(self, w): return True


# ----- builtins on symbolic arguments ------------------------------------------------------------------------------
def _only(f):
    def g(w, args, kw):
        if w.concrete(args) and w.concrete(kw): return NotImplemented
        return f(w, args, kw)
    return g


def b_len(w, args, kw):
    v = args[0]
    if isinstance(v, SV): return v.length(w)
    if isz(v) and v.sort() == z3.StringSort(): return z3.Length(v)
    if isz(v): raise PyRaise(TypeError, ("len",))
    return len(v)


def b_isinstance(w, args, kw):
    v, c = args
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(v, SV):
        rs = [v.isinst(w, x) for x in cs]
        if any(r is True for r in rs): return True
        rs = [r for r in rs if r is not False]
        return z3.Or(*rs) if rs else False
    if isz(v):
        t = {z3.IntSort(): int, z3.StringSort(): str, z3.BoolSort(): bool}.get(v.sort())
        if t is None: raise Unsupported("isinstance of %s" % v)
        return any(issubclass(t, x) for x in cs)
    return isinstance(v, c)


def b_str(w, args, kw):
    v = args[0]
    if isinstance(v, SV): return v.text(w)
    if isz(v) and v.sort() == z3.StringSort(): return v
    return Text()


def b_abs(w, args, kw):
    v = args[0]
    if isz(v): return z3.If(v >= 0, v, -v)
    if isinstance(v, SV): return v.getattr(w, "__abs__").call(w, [], {})
    return NotImplemented


def b_bool(w, args, kw): return w.truth(args[0])


def b_fold(pick):
    def g(w, args, kw):
        if kw: return NotImplemented
        xs = args[0] if len(args) == 1 else args
        if isinstance(xs, SV): return NotImplemented
        xs = list(xs)
        m = xs[0]
        for x in xs[1:]:
            if w.truth(w.compare(ast.Lt() if pick == "min" else ast.Gt(), x, m)): m = x
        return m
    return g


def b_all(w, args, kw):
    if isinstance(args[0], SV):
        return args[0].getattr(w, "_all").call(w, [], {})
    return all(w.truth(x) for x in args[0])


def b_any(w, args, kw):
    if isinstance(args[0], SV):
        return args[0].getattr(w, "_any").call(w, [], {})
    return any(w.truth(x) for x in args[0])


def b_list(w, args, kw):
    if args and isinstance(args[0], SV):
        r = args[0].getattr(w, "_list").call(w, [], {})
        return r
    return NotImplemented if w.concrete(args) else list(args[0])


def b_getattr(w, args, kw):
    try:
        return w.getattr_(args[0], args[1])
    except PyRaise as e:
        if len(args) > 2 and issubclass(e.cls, AttributeError): return args[2]
        raise


def b_hasattr(w, args, kw):
    try:
        w.getattr_(args[0], args[1])
        return True
    except PyRaise as e:
        if issubclass(e.cls, AttributeError): return False
        raise


def b_enumerate(w, args, kw):
    if isinstance(args[0], SV): return NotImplemented
    return list(enumerate(args[0], *args[1:]))


def b_callable(w, args, kw): return True


BUILTIN = {len: _only(b_len), isinstance: _only(b_isinstance), str: _only(b_str), repr: _only(lambda w, a, k: Text()), abs: _only(b_abs), bool: _only(b_bool), min: _only(b_fold("min")),
           max: _only(b_fold("max")), all: _only(b_all), any: _only(b_any), list: _only(b_list), tuple: _only(lambda w, a, k: tuple(b_list(w, a, k)) if not isinstance(a[0], SV) else NotImplemented),
           getattr: _only(b_getattr), hasattr: _only(b_hasattr), enumerate: _only(b_enumerate), callable: _only(b_callable), zip: _only(lambda w, a, k: list(zip(*a)) if not any(isinstance(x, SV) for x in a) else NotImplemented),
           reversed: _only(lambda w, a, k: list(reversed(a[0])) if not isinstance(a[0], SV) else NotImplemented), print: lambda w, a, k: None, format: _only(lambda w, a, k: Text()), id: _only(lambda w, a, k: id(a[0])),
           type: _only(lambda w, a, k: a[0].cls if isinstance(a[0], Obj) else NotImplemented)}


def run_world(name, build, cls=None):
    """a job: build(world) sets up and explores; returns the list of Results"""
    def job():
        w = (cls or World)(name)
        t0 = time.time()
        try:
            build(w)
        except Unsupported as e:
            w.results.append(Result("%s: within the executor's reach" % name, "failed", time.time() - t0, "executor", str(e)))
        except RecursionError:
            w.results.append(Result("%s: within the executor's reach" % name, "failed", time.time() - t0, "executor", "recursion"))
        except Exception as e:
            import traceback
            w.results.append(Result("%s: executor" % name, "failed", time.time() - t0, "executor", traceback.format_exc()[-1500:]))
        # one obligation per label: the conjunction over the paths
        groups, rs = {}, []
        for r in w.results: groups.setdefault(r.name.rsplit(" [path ", 1)[0], []).append(r)
        for nm, g in groups.items():
            bad = [r for r in g if r.status != "proved"]
            solver = "z3" if any(r.solver == "z3" for r in g) else "cvc5" if any(r.solver == "cvc5" for r in g) else g[0].solver
            rs.append(Result(nm, "failed" if bad else "proved", sum(r.seconds for r in g), solver, bad[0].detail if bad else "%d paths" % len(g)))
        rs.append(Result("functions: " + ",".join("%s=%d" % kv for kv in sorted(w.used.items())), "used", 0.0, "executor"))
        return rs
    return name, job


def pure_jobs(led, jobs):
    """runs the jobs in parallel and books what they used"""
    from .proofs import run_jobs
    run_jobs(led, jobs)
    keep = []
    for r in led.results:
        if r.status == "used":
            for kv in r.name[len("functions: "):].split(","):
                if kv:
                    k, v = kv.rsplit("=", 1)
                    led.functions[k] = max(led.functions.get(k, 0), int(v))
        else:
            keep.append(r)
    led.results[:] = keep
