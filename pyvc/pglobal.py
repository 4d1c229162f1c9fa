"""C17: the process-wide tables after DeductiveClosure.expand are what they were before, however the closure class leaves them;
no other process-wide state of the package is written by code an expansion reaches (frame condition, by a whole-package
analysis of every write)."""
import ast
import inspect
import z3
from . import load
from .exec import Unsupported
from .vc import Result
from .pure import SV, Fn, PyRaise, run_world, pure_jobs
import owlrl
import owlrl.DatatypeHandling as DH
import owlrl.XsdDatatypes as XD
import rdflib.term

CONTENT = z3.DeclareSort("TableContents")
updated = z3.Function("updated_with", CONTENT, CONTENT, CONTENT)
EMPTY = z3.Const("empty", CONTENT)
TABLES = {"rdflib's conversion table": rdflib.term._toPythonMapping, "AltXSDToPYTHON": DH.AltXSDToPYTHON, "OWL_RL_Datatypes": XD.OWL_RL_Datatypes, "OWL_Datatype_Subsumptions": XD.OWL_Datatype_Subsumptions}


class Table(SV):
    """a dict or list with symbolic contents"""
    def __init__(self, kind, term): self.kind, self.term = kind, term
    def truth(self, w): return self.term != EMPTY
    def copy(self): return Table(self.kind, self.term)
    def isinst(self, w, cls): return issubclass(self.kind, cls)

    def add(self, w, o):
        if not isinstance(o, Table): raise Unsupported("updating a table with %s" % (o,))
        e, f = self.term, o.term
        if w.decide(e == EMPTY): self.term = f
        elif w.decide(f == EMPTY): pass
        else: self.term = updated(e, f)

    def getattr(self, w, name):
        def clear(w, a, k): self.term = EMPTY
        fs = {"copy": lambda w, a, k: self.copy(), "clear": clear, "_list": lambda w, a, k: self.copy(), "items": lambda w, a, k: self.copy(), "__len__": lambda w, a, k: self.length(w)}
        if name in ("update", "extend"):
            def upd(w, a, k):
                for x in a: self.add(w, x)
            return Fn(name, upd)
        if name in fs: return Fn(name, fs[name])
        raise Unsupported("%s of a table" % name)

    def whole(self, k): return isinstance(k, slice) and k.start in (None, 0) and k.stop is None and k.step is None

    def getitem(self, w, k):
        if self.kind is list and self.whole(k): return self.copy()
        raise Unsupported("items of a table")

    def setitem(self, w, k, v):
        if self.kind is list and self.whole(k) and isinstance(v, Table): self.term = v.term
        elif not isinstance(k, slice): self.term = w.fresh("changed", CONTENT)
        else: raise Unsupported("items of a table")

    def delitem(self, w, k):
        if self.kind is list and self.whole(k): self.term = EMPTY
        else: self.term = w.fresh("changed", CONTENT)

    def inplace(self, w, op, o): return NotImplemented


class Opaque(SV):
    def truth(self, w): return w.fresh("truth", z3.BoolSort())


class ClosureClass(SV):
    """any closure class: constructing it and closure() may change the tables and fail"""
    def __init__(self, tables, events): self.tables, self.events = tables, events
    def isinst(self, w, cls): return cls is type or cls is object
    def truth(self, w): return True

    def step(self, w, what):
        self.events.append(what)
        for n, t in self.tables.items(): t.term = w.fresh("changed", CONTENT)
        k = w.choose(3)
        if k: raise PyRaise((Exception, KeyboardInterrupt)[k - 1])

    def call(self, w, args, kw):
        self.step(w, "constructor")
        return self

    def getattr(self, w, name):
        if name == "closure": return Fn(name, lambda w, a, k: self.step(w, "closure"))
        raise Unsupported("attribute %s of the closure class" % name)


def expand(w):
    flag = None

    def body(w):
        tables = {n: Table(type(t), w.fresh(n.split("'")[0], CONTENT)) for n, t in TABLES.items()}
        before = {n: t.term for n, t in tables.items()}
        w.replace = {}
        for n, t in TABLES.items(): w.substitute(t, tables[n])
        w.contract(dict, lambda w, a, k: a[0].copy() if len(a) == 1 and isinstance(a[0], Table) and not k else NotImplemented)
        import copy
        w.contract(copy.copy, lambda w, a, k: a[0].copy() if isinstance(a[0], Table) else NotImplemented)
        w.contract(copy.deepcopy, lambda w, a, k: a[0].copy() if isinstance(a[0], Table) else NotImplemented)

        def havoc(w, a, k): tables["rdflib's conversion table"].term = w.fresh("converted", CONTENT)
        w.contract(DH.use_Alt_lexical_conversions, havoc)
        w.contract(DH.use_RDFLib_lexical_conversions, havoc)
        generic = w.fresh("improved_datatype_generic", z3.BoolSort())
        state = {"generic": generic}

        def classattr(w, o, n): return state["generic"] if o is owlrl.DeductiveClosure and n == "improved_datatype_generic" else None

        def setattr_(w, o, n, v):
            if o is owlrl.DeductiveClosure and n == "improved_datatype_generic":
                state["generic"] = v
                return True
            return False
        w.hooks.update(classattr=classattr, setattr=setattr_)
        events = []
        cls = ClosureClass(tables, events) if w.choose(2) else None
        flags = {n: w.fresh(n, z3.BoolSort()) for n in ("improved_datatypes", "rdfs_closure", "axiomatic_triples", "datatype_axioms")}
        flags["improved_datatypes"] = True                      # the default setting
        me = w.call(owlrl.DeductiveClosure, [cls], dict(flags))
        dest = Opaque() if w.choose(2) else None
        try:
            w.call(w.getattr_(me, "expand"), [Opaque()] + ([dest] if dest is not None else []), {})
            how = "after an expansion"
        except PyRaise as e:
            if not events: raise
            how = "after a failure"
        for n, t in tables.items(): w.prove("%s is restored %s" % (n, how), t.term == before[n])
        g = state["generic"]
        w.prove("the global switch is unchanged %s" % how, g is generic or (g == generic if not isinstance(g, bool) else z3.BoolVal(g) == generic))
    w.explore(body)


def switches(w):
    """on: the improved conversion of every datatype is in force; off: RDFLib's own table; on the real tables, restored afterwards"""
    def body(w):
        T, saved, flag = rdflib.term._toPythonMapping, dict(rdflib.term._toPythonMapping), owlrl.DeductiveClosure.improved_datatype_generic
        alt = dict(DH.AltXSDToPYTHON)
        orig = dict(ORIGINAL)
        try:
            owlrl.DeductiveClosure.use_improved_datatypes_conversions()
            w.prove("switched on: every improved conversion is in force", all(T.get(k) is f for k, f in alt.items()) and {k: v for k, v in T.items() if k not in alt} == {k: v for k, v in orig.items() if k not in alt})
            w.prove("switched on: the flag is set", owlrl.DeductiveClosure.improved_datatype_generic is True)
            w.prove("switched on: the tables are kept", DH.AltXSDToPYTHON == alt)
            owlrl.DeductiveClosure.use_rdflib_datatypes_conversions()
            w.prove("switched off: RDFLib's conversions are in force", T == orig)
            w.prove("switched off: the flag is cleared", owlrl.DeductiveClosure.improved_datatype_generic is False)
            w.prove("switched off: the tables are kept", DH.AltXSDToPYTHON == alt)
        finally:
            T.clear()
            T.update(saved)
            owlrl.DeductiveClosure.improved_datatype_generic = flag
    w.explore(body)


ORIGINAL = dict(rdflib.term._toPythonMapping)


# ----- frame: writes to module, class and default-argument state --------------------------------------------------------
MUTATORS = {"append", "add", "update", "pop", "popitem", "clear", "extend", "remove", "discard", "setdefault", "insert", "sort", "reverse", "__setitem__", "__delitem__", "appendleft", "popleft",
            "difference_update", "intersection_update", "symmetric_difference_update"}
INNER = {"get", "setdefault", "values", "items", "__getitem__", "keys", "copy"}
CACHES = {"lru_cache", "cache", "cached_property", "singledispatch", "memoize", "memoise"}
IMMUTABLE = (str, int, float, bool, type(None), tuple, frozenset)


class Frame:
    """flow-insensitive analysis: which objects that outlive a call may a write reach"""
    def __init__(self):
        import owlrl
        self.mods = {}
        import pkgutil, importlib
        for m in pkgutil.iter_modules(owlrl.__path__): self.mods["owlrl." + m.name] = importlib.import_module("owlrl." + m.name)
        self.mods["owlrl"] = owlrl
        self.funcs = []          # (module, class, qualname, node)
        for mn, m in self.mods.items():
            try:
                tree = ast.parse(inspect.getsource(m))
            except OSError:
                continue
            self.collect(m, tree.body, None, mn)
        self.attr = {}           # attribute name -> set of roots it may hold
        self.param = {}          # (function name, index or name) -> roots
        self.ids = {id(t): n for n, t in TABLES.items()}
        self.writes = set()

    def collect(self, m, body, cls, q):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs.append((m, cls, q + "." + n.name, n))
                self.nested(m, cls, q + "." + n.name, n)
            elif isinstance(n, ast.ClassDef):
                c = getattr(m, n.name, None) if cls is None else None
                self.collect(m, n.body, c, q + "." + n.name)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ("body", "orelse", "finalbody"): self.collect(m, getattr(n, f, []), cls, q)
                for h in getattr(n, "handlers", []): self.collect(m, h.body, cls, q)
            else:
                for x in ast.walk(n):
                    if isinstance(x, ast.Lambda): self.funcs.append((m, cls, q + ".<lambda>", x))

    def nested(self, m, cls, q, node):
        for s in node.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)): self.funcs.append((m, cls, q + "." + x.name, x))
                elif isinstance(x, ast.Lambda): self.funcs.append((m, cls, q + ".<lambda>", x))

    def global_root(self, m, name):
        if not hasattr(m, name): return set()
        v = getattr(m, name)
        if isinstance(v, IMMUTABLE) and not isinstance(v, tuple): return set()
        if isinstance(v, tuple): return set()
        if inspect.isroutine(v): return {"function %s" % name} if (getattr(v, "__module__", "") or "").startswith("owlrl") else set()
        if inspect.isclass(v): return {"class %s" % v.__name__} if v.__module__.startswith("owlrl") else {"class %s of %s" % (v.__name__, v.__module__)} if not issubclass(v, BaseException) else set()
        if inspect.ismodule(v): return {"module %s" % v.__name__}
        return {self.ids.get(id(v), "%s.%s" % (m.__name__, name))}

    def class_attr_roots(self, cls, name):
        if cls is None: return set()
        for c in cls.__mro__:
            if name in c.__dict__ and c.__module__.startswith("owlrl"):
                v = c.__dict__[name]
                if isinstance(v, IMMUTABLE) or inspect.isroutine(v) or isinstance(v, (property, staticmethod, classmethod)): return set()
                return {self.ids.get(id(v), "%s.%s" % (c.__name__, name))}
        return set()

    def run(self):
        for _ in range(6):
            n = (sum(map(len, self.attr.values())), sum(map(len, self.param.values())))
            self.writes = set()
            for f in self.funcs: self.function(*f)
            if n == (sum(map(len, self.attr.values())), sum(map(len, self.param.values()))): break
        return self

    def function(self, m, cls, q, node):
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        names = params + [x.arg for x in a.kwonlyargs] + [y.arg for y in (a.vararg, a.kwarg) if y]
        body = node.body if isinstance(node.body, list) else [node.body]
        fname = q.rsplit(".", 1)[1]
        if fname == "__init__" and cls is not None: fname = cls.__name__
        me = params[0] if cls is not None and params and not isinstance(node, ast.Lambda) and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(node, "decorator_list", [])) else None
        for d in getattr(node, "decorator_list", []):
            for x in ast.walk(d):
                n = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                if n in CACHES: self.writes.add((q, "results cached by %s" % n))
        env = {n: set() for n in names}
        for i, n in enumerate(params):
            k = i - (1 if me is not None else 0)
            env[n] |= self.param.get((fname, k), set()) | self.param.get((fname, n), set())
        for n in [x.arg for x in a.kwonlyargs]: env[n] |= self.param.get((fname, n), set())
        defaults = list(zip(params[len(params) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        glob, stored = set(), set()
        own = []

        def walk(n):
            own.append(n)
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    if isinstance(c, ast.ClassDef): self.writes.add((q, "local class"))
                    continue
                walk(c)
        for s in body:
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): walk(s)
        for n in own:
            if isinstance(n, ast.Global): glob.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): stored.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    nm = (al.asname or al.name).split(".")[0]
                    stored.add(nm)
                    env.setdefault(nm, set())
                    if isinstance(n, ast.ImportFrom) and (n.level or (n.module or "").startswith("owlrl")):
                        mod = self.mods.get(("owlrl." + n.module) if n.level and n.module else n.module or "owlrl")
                        if mod is not None: env[nm] |= self.global_root(mod, al.name)
        for n in stored - glob: env.setdefault(n, set())

        def roots(e):
            if e is None: return set()
            if isinstance(e, ast.Name):
                if e.id in env and e.id not in glob: return set(env[e.id])
                return self.global_root(m, e.id)
            if isinstance(e, ast.Attribute):
                b = e.value
                out = set()
                if isinstance(b, ast.Name) and b.id == me and me is not None:
                    if e.attr == "__class__": return {"class %s" % cls.__name__}
                    out |= self.attr.get(e.attr, set())
                    if e.attr not in self.instance.get(cls, ()): out |= self.class_attr_roots(cls, e.attr)
                    return out
                for r in roots(b):
                    if r.startswith("module "):
                        mod = self.mods.get(r[7:])
                        if mod is None: out.add("%s.%s" % (r[7:], e.attr)) if not e.attr[:1].isupper() else None
                        else: out |= self.global_root(mod, e.attr)
                    elif r.startswith("class "):
                        if e.attr in ("__init__",): continue
                        for c in self.classes.get(r[6:], ()): out |= self.class_attr_roots(c, e.attr)
                    else: out.add(r)
                return out | self.attr.get(e.attr, set())
            if isinstance(e, ast.Subscript): return {r + "[]" if r in TABLES else r for r in roots(e.value)} if not isinstance(e.slice, ast.Slice) else roots(e.value)
            if isinstance(e, ast.Starred): return roots(e.value)
            if isinstance(e, ast.IfExp): return roots(e.body) | roots(e.orelse)
            if isinstance(e, ast.BoolOp): return set().union(*[roots(v) for v in e.values])
            if isinstance(e, ast.NamedExpr): return roots(e.value)
            if isinstance(e, (ast.List, ast.Tuple)): return set().union(*[roots(v) for v in e.elts]) if e.elts else set()
            if isinstance(e, ast.Call):
                f = e.func
                if isinstance(f, ast.Attribute) and f.attr in INNER - {"copy"}: return {r + "[]" if r in TABLES else r for r in roots(f.value) if not r.startswith(("class ", "module "))}
                if isinstance(f, ast.Name) and f.id == "type" and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and e.args[0].id == me: return {"class %s" % (cls.__name__ if cls else "?")}
                if isinstance(f, ast.Name) and f.id == "vars" and e.args: return roots(e.args[0])
                if isinstance(f, ast.Name) and f.id == "globals": return {"%s.globals()" % m.__name__}
                if isinstance(f, ast.Name) and f.id in ("iter", "enumerate", "reversed", "zip"): return set().union(*[roots(x) for x in e.args]) if e.args else set()
                return set()
            return set()

        for n, d in defaults:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp)) and not (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("frozenset", "tuple", "str", "int")):
                env[n].add("default of %s in %s" % (n, q))
            else:
                env[n] |= {r for r in roots(d) if not r.startswith(("class ", "module ", "function "))}

        def bind(t, rs):
            if isinstance(t, ast.Name):
                if t.id in glob: self.writes.add((q, "%s.%s" % (m.__name__, t.id)))
                else: env.setdefault(t.id, set()).update(rs)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts: bind(x, rs)
            elif isinstance(t, ast.Starred): bind(t.value, rs)
            elif isinstance(t, ast.Attribute):
                b = t.value
                if isinstance(b, ast.Name) and b.id == me and me is not None:
                    if cls is not None: self.attr.setdefault(t.attr, set()).update(rs - set(x for x in rs if x.startswith(("class ", "module ", "function "))))
                else:
                    for r in roots(b): self.writes.add((q, r + "." + t.attr))
            elif isinstance(t, ast.Subscript):
                for r in roots(t.value): self.writes.add((q, r))
        for _ in range(3):
            for n in own:
                if isinstance(n, ast.Assign):
                    for t in n.targets: bind(t, roots(n.value))
                elif isinstance(n, ast.AnnAssign) and n.value is not None: bind(n.target, roots(n.value))
                elif isinstance(n, ast.NamedExpr): bind(n.target, roots(n.value))
                elif isinstance(n, ast.AugAssign):
                    if isinstance(n.target, ast.Name):
                        if n.target.id in glob: self.writes.add((q, "%s.%s" % (m.__name__, n.target.id)))
                        for r in env.get(n.target.id, ()): self.writes.add((q, r))
                    else:
                        bind(n.target, set())
                        if isinstance(n.target, ast.Attribute):
                            for r in roots(n.target): self.writes.add((q, r))
                elif isinstance(n, (ast.For, ast.AsyncFor)): bind(n.target, {r for r in roots(n.iter) if not r.startswith(("class ", "module ", "function "))})
                elif isinstance(n, ast.comprehension): bind(n.target, {r for r in roots(n.iter) if not r.startswith(("class ", "module ", "function "))})
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None: bind(i.optional_vars, roots(i.context_expr))
                elif isinstance(n, ast.Delete):
                    for t in n.targets:
                        if not isinstance(t, ast.Name): bind(t, set())
                elif isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                        for r in roots(f.value):
                            if not r.startswith(("module ", "function ", "class ")): self.writes.add((q, r))
                    if isinstance(f, ast.Name) and f.id in ("setattr", "delattr") and n.args:
                        for r in roots(n.args[0]): self.writes.add((q, r + " (setattr)"))
                    callee = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                    if callee == "__init__" and isinstance(f, ast.Attribute):
                        c = f.value.id if isinstance(f.value, ast.Name) else None
                        if c in self.classes: callee, shift = c, 1
                        else: shift = 0
                    else: shift = 1 if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.classes else 0
                    if callee in self.names:
                        for i, x in enumerate(n.args):
                            rs = {r for r in roots(x) if not r.startswith(("class ", "module ", "function "))}
                            if rs: self.param.setdefault((callee, i - shift), set()).update(rs)
                        for kw in n.keywords:
                            rs = {r for r in roots(kw.value) if not r.startswith(("class ", "module ", "function "))}
                            if rs and kw.arg: self.param.setdefault((callee, kw.arg), set()).update(rs)

    def prepare(self):
        self.classes, self.instance = {}, {}
        self.names = {q.rsplit(".", 1)[1] for _, _, q, _ in self.funcs}
        for m in self.mods.values():
            for v in vars(m).values():
                if inspect.isclass(v) and v.__module__.startswith("owlrl"):
                    self.classes.setdefault(v.__name__, [])
                    if v not in self.classes[v.__name__]: self.classes[v.__name__].append(v)
        self.names |= set(self.classes)
        for m, cls, q, node in self.funcs:
            # attributes every instance gets from its constructor
            if cls is None or not isinstance(node, ast.FunctionDef) or node.name != "__init__": continue
            s = {x.attr for n in node.body for x in ast.walk(n) if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == node.args.args[0].arg}
            for c in self.all_classes():
                if cls in c.__mro__: self.instance.setdefault(c, set()).update(s)
        return self

    def all_classes(self): return [c for cs in self.classes.values() for c in cs]


ALLOWED = set(TABLES) | {"class DeductiveClosure.improved_datatype_generic"}
NOT_REACHED = {"use_improved_datatypes_conversions", "use_rdflib_datatypes_conversions"}


def frame(led):
    f = Frame().prepare().run()
    bad = {}
    for q, r in f.writes:
        if r in TABLES: continue
        if q.rsplit(".", 1)[1] in NOT_REACHED and r == "class DeductiveClosure.improved_datatype_generic": continue
        bad.setdefault(q, set()).add(r)
    for m, cls, q, node in f.funcs:
        if q in bad: led.results.append(Result("frame: %s writes no process-wide state but the datatype tables" % q, "failed", 0.0, "frame analysis", "writes to " + ", ".join(sorted(bad[q]))))
        else: led.results.append(Result("frame: %s writes no process-wide state but the datatype tables" % q, "proved", 0.0, "frame analysis", ""))


def globals_(led):
    pure_jobs(led, [run_world("expand", expand), run_world("switches", switches)])
    frame(led)
