"""C19: interpret_owl_imports.  The loop is verified for an arbitrary graph and an arbitrary set of visited documents: one
iteration from an arbitrary state, the inner loops by an arbitrary element."""
import ast
import z3
from . import load
from .exec import Unsupported
from .pure import SV, Fn, PyRaise, Kill, _Break, _Continue, run_world, pure_jobs, assigned
import owlrl
from rdflib import Literal, URIRef
from rdflib.namespace import OWL
from rdflib.term import Identifier, Node

TERM, NAME = z3.DeclareSort("ImportedTerm"), z3.DeclareSort("DocumentName")
name_of = z3.Function("name_of", TERM, NAME)


class Uri(SV):
    """the object of an import statement"""
    def __init__(self, e, lit): self.e, self.lit = e, lit
    def isinst(self, w, cls):
        if cls is Literal: return self.lit
        if cls is URIRef: return z3.Not(self.lit)
        return issubclass(Node, cls) or cls in (str, Identifier, object, Node)

    def text(self, w): return Name(name_of(self.e))
    def truth(self, w): return w.fresh("nonempty", z3.BoolSort())

    def eq(self, w, o):
        if isinstance(o, Uri): return self.e == o.e
        return False

    def getattr(self, w, name):
        if name == "toPython": return Fn(name, lambda w, a, k: Name(name_of(self.e)))
        raise Unsupported("attribute %s of an import" % name)


class Name(SV):
    def __init__(self, e): self.e = e
    def isinst(self, w, cls): return issubclass(str, cls)
    def text(self, w): return self
    def truth(self, w): return w.fresh("nonempty", z3.BoolSort())
    def eq(self, w, o): return self.e == o.e if isinstance(o, Name) else w.fresh("same", z3.BoolSort())


class Opaque(SV): pass


class Visited(SV):
    """the set of names (or terms) of the documents read so far"""
    def __init__(self, w, kind=set):
        self.kind, self.by = kind, None
        self.havoc(w)

    def havoc(self, w):
        w.counter += 1
        self.pn, self.pt = z3.Function("visited_name!%d" % w.counter, NAME, z3.BoolSort()), z3.Function("visited_term!%d" % w.counter, TERM, z3.BoolSort())
        self.added = []

    def has(self, x):
        if isinstance(x, Name):
            self.by = "name"
            return z3.Or(self.pn(x.e), *[x.e == y.e for y in self.added if isinstance(y, Name)])
        if isinstance(x, Uri):
            self.by = "term"
            return z3.Or(self.pt(x.e), *[x.e == y.e for y in self.added if isinstance(y, Uri)])
        raise Unsupported("membership of %s" % x)

    def contains(self, w, x): return self.has(x)
    def truth(self, w): return w.fresh("visited_any", z3.BoolSort())

    def getattr(self, w, name):
        if name in ("add", "append"):
            def add(w, a, k): self.added.append(a[0])
            return Fn(name, add)
        raise Unsupported("%s of the visited documents" % name)

    def setitem(self, w, k, v): self.added.append(k)


class Imports(SV):
    """the import statements of the graph at one moment"""
    def __init__(self, g, lazy, version, n): self.g, self.lazy, self.version, self.n, self.elt = g, lazy, version, n, "triple"

    def now(self, w):
        if self.lazy and self.version != self.g.version: raise Unsupported("the graph is changed while its statements are read")
        return self

    def length(self, w):
        if self.lazy: raise PyRaise(TypeError)
        return self.n

    def truth(self, w): return True if self.lazy else self.n > 0

    def getattr(self, w, name):
        if name == "_list": return Fn(name, lambda w, a, k: self.fixed(w))
        if name in ("copy",) and not self.lazy: return Fn(name, lambda w, a, k: self.fixed(w))
        raise Unsupported("%s of the import statements" % name)

    def fixed(self, w):
        self.now(w)
        x = Imports(self.g, False, self.version, self.n)
        x.elt = self.elt
        return x

    def generic(self, w):
        u = Uri(w.fresh("import", TERM), w.fresh("literal", z3.BoolSort()))
        t = (Opaque(), OWL.imports, u)
        self.g.statements[id(u)] = t
        return t if self.elt == "triple" else u if self.elt == "object" else t

    def comp(self, w, fr, node, kind):
        gen = node.generators[0]
        if gen.ifs: raise Unsupported("filtering the import statements")
        if isinstance(gen.target, ast.Name) and isinstance(node.elt, ast.Name) and gen.target.id == node.elt.id:
            return self.fixed(w)
        if isinstance(gen.target, ast.Tuple) and isinstance(node.elt, ast.Tuple) and [x.id for x in gen.target.elts] == [getattr(x, "id", None) for x in node.elt.elts]: return self.fixed(w)
        if isinstance(gen.target, ast.Tuple) and len(gen.target.elts) == 3 and isinstance(node.elt, ast.Name) and isinstance(gen.target.elts[2], ast.Name) and gen.target.elts[2].id == node.elt.id:
            x = self.fixed(w)
            x.elt = "object"
            return x
        raise Unsupported("comprehension over the import statements")

    def loop(self, w, fr, node):
        g = self.g
        if self.lazy and any(isinstance(x, ast.Call) for s in node.body for x in ast.walk(s)): raise Unsupported("a loop over statements that are still being read")
        if not w.decide(self.n > 0):
            w_else(w, fr, node)
            return True
        # an arbitrary element, in the state some earlier turns have left
        vis = [v for v in fr.vars.values() if isinstance(v, Visited)]

        def body():
            marks = {id(v): (v.pn, v.pt, list(v.added)) for v in vis}
            g.parsing = []
            g.removing = []
            for v in vis:
                old = v.pn, v.pt
                v.havoc(w)
                x, y = z3.Const("x!v", NAME), z3.Const("y!v", TERM)
                w.assume(z3.ForAll([x], z3.Implies(old[0](x), v.pn(x))))
                w.assume(z3.ForAll([y], z3.Implies(old[1](y), v.pt(y))))
            el = self.generic(w)
            u = el[2] if isinstance(el, tuple) else el
            before = [(v, v.has(Name(name_of(u.e))), v.has(u)) for v in vis]
            w.assign(fr, node.target, el)
            try:
                w.block(fr, node.body)
            except _Continue:
                pass
            after = [(v.has(Name(name_of(u.e))), v.has(u)) for v in vis]
            return u, before, after, list(g.parsing), list(g.removing)
        paths = w.sub(body)
        removed, parsed, covered, marked = True, False, True, []
        saved = w.pc
        for pc, out in paths:
            w.pc = saved + list(pc)
            if out[0] == "raise": raise out[1]
            if out[0] != "value":
                w.fail("every import statement is treated", "the loop over the import statements is left by %s" % out[0])
                continue
            u, before, after, ps, rs = out[1]
            if not rs: removed = False
            for r in rs:
                ok = r is g.statements[id(u)] or isinstance(r, tuple) and len(r) == 3 and r[1] == OWL.imports and (r[2] is u or r[2] is None) and (r[0] is g.statements[id(u)][0] or r[0] is None)
                if not ok: w.fail("only import statements are removed", "removes %s" % (r,))
            if ps:
                parsed = True
                for p in ps:
                    if not (p is u or isinstance(p, Name) and w.prove("the imported document is the one named", p.e == name_of(u.e))): w.fail("the imported document is the one named", "reads %s" % (p,))
                w.prove("a document is read only once", z3.Or(*[z3.And(z3.Not(b[1]), a[0]) for b, a in zip(before, after)] + [z3.And(z3.Not(b[2]), a[1]) for b, a in zip(before, after)] + [z3.BoolVal(False)]) if len(ps) == 1 else False)
            else:
                # not read: it has been read before
                cond = z3.Or(*[x for b in before for x in (b[1], b[2])] + [z3.BoolVal(False)])
                if g.parser_loop is None: g.parser_loop = {}
                marked.append(z3.simplify(cond))
                g.unread.append((list(w.pc), cond))
        w.pc = saved
        if parsed:
            # this is the loop that reads: whatever it does not read has been read before
            for pc, cond in g.unread:
                w.pc = list(pc)
                w.prove("every imported document is read", cond)
            w.pc = saved
            g.read_all = True
        g.unread = []
        for v in vis: v.havoc(w)
        if removed: g.removed_all = True
        if parsed: g.version += 1; g.any_parsed = True
        elif removed: g.version += 1
        g.state(w, parsed, removed)
        w_else(w, fr, node)
        return True


def w_else(w, fr, node): w.block(fr, node.orelse)


class GraphV(SV):
    def __init__(self, w):
        self.version, self.statements, self.parsing, self.removing, self.parser_loop, self.unread = 0, {}, [], [], None, []
        self.n = self.fresh_count(w)
        self.head(w)

    def head(self, w): self.removed_all = self.read_all = self.any_parsed = False

    def fresh_count(self, w):
        n = w.fresh("import_statements", z3.IntSort())
        w.assume(n >= 0)
        return n

    def havoc(self, w):
        self.version += 1
        self.n = self.fresh_count(w)

    def state(self, w, parsed, removed):
        if parsed: self.n = self.fresh_count(w)
        elif removed: self.n = z3.IntVal(0)

    def pattern(self, p):
        return isinstance(p, tuple) and len(p) == 3 and p[0] is None and p[1] == OWL.imports and p[2] is None

    def getattr(self, w, name):
        if name == "triples":
            def tr(w, a, k):
                if not self.pattern(a[0]): raise Unsupported("pattern of statements")
                return Imports(self, True, self.version, self.n)
            return Fn(name, tr)
        if name in ("objects", "subject_objects"):
            def ob(w, a, k):
                k = {**dict(zip(("subject", "predicate"), a)), **k} if name == "objects" else {**dict(zip(("predicate",), a)), **k}
                if k.get("predicate") != OWL.imports or k.get("subject") is not None or name != "objects" or set(k) - {"subject", "predicate"}: raise Unsupported("pattern of statements")
                x = Imports(self, True, self.version, self.n)
                x.elt = "object"
                return x
            return Fn(name, ob)
        if name == "remove":
            def rem(w, a, k):
                self.removing.append(a[0])
                if self.pattern(a[0]):
                    self.n, self.removed_all = z3.IntVal(0), True
                    self.version += 1
            return Fn(name, rem)
        if name == "__contains__": return Fn(name, lambda w, a, k: self.contains(w, a[0]))
        raise Unsupported("Graph.%s" % name)

    def contains(self, w, t):
        if self.pattern(t): return self.n > 0
        raise Unsupported("membership in the graph")

    def truth(self, w): return w.fresh("graph_nonempty", z3.BoolSort())


FORMAT = "<requested format>"


def imports(w):
    fmt = Opaque()

    def body(w):
        g = GraphV(w)

        def read(w, a, k):
            a = list(a)
            names = ("iformat", "inp", "graph")
            k = {**dict(zip(names, a)), **k}
            if k.get("iformat") is not fmt: w.fail("the input format is passed on", "format %s" % (k.get("iformat"),))
            if k.get("graph") is not g: w.fail("documents are read into the graph", "reads into %s" % (k.get("graph"),))
            g.parsing.append(k.get("inp"))
        w.contract(getattr(owlrl, "__parse_input"), read)

        def loop(w, fr, s):
            cur = {n: v for n, v in fr.vars.items() if isinstance(v, Imports)}
            for n, v in cur.items():
                if v.version != g.version or v.lazy: raise Unsupported("import statements collected before the loop from another state")
            sets = [n for n, v in fr.vars.items() if isinstance(v, (set, list, dict)) and not v]
            fresh = {n: type(fr.vars[n]) for n in sets}
            for n, k in fresh.items(): fr.vars[n] = Visited(w, k)
            g.havoc(w)
            g.head(w)
            for n, v in cur.items():
                x = Imports(g, False, g.version, g.n)
                x.elt = v.elt
                fr.vars[n] = x
            start = g.n
            if not w.truth(w.ev(fr, s.test)):
                w.block(fr, s.orelse)
                return True
            try:
                w.block(fr, s.body)
            except _Break:
                return True
            except _Continue:
                pass
            for n, v in cur.items():
                x = fr.vars[n]
                w.prove("the statements of the next turn are current", isinstance(x, Imports) and not x.lazy and x.version == g.version and x.elt == v.elt)
            w.prove("each turn removes the import statements it found", z3.Or(start == 0, z3.BoolVal(g.removed_all)))
            w.prove("each turn reads the documents of the statements it found", z3.Or(start == 0, z3.BoolVal(g.read_all)))
            w.prove("a turn that finds no import statement is the last", start > 0)
            # termination: each turn reads a document not read before, or leaves no import statement behind
            w.prove("the loop terminates", z3.Or(z3.BoolVal(g.any_parsed), g.n == 0))
            raise Kill()
        w.hooks["while"] = loop
        w.call(owlrl.interpret_owl_imports, [fmt, g], {})
        w.prove("no import statement is left", g.n == 0)
    w.explore(body)


def imported(led): pure_jobs(led, [run_world("interpret_owl_imports", imports)])
