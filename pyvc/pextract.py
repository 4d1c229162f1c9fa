"""C14, C21: extract_faceted_datatypes yields exactly the faceted datatypes of an arbitrary graph and raises nothing.  Every loop
is executed for an arbitrary element; what a loop appends to a list becomes a comprehension over its collection."""
import ast
import z3
from rdflib import Literal, URIRef, BNode
from rdflib.namespace import RDF, RDFS, OWL, XSD
from rdflib.term import Node, Identifier
from . import load
from .exec import Unsupported
from .pure import SV, Fn, Text, PyRaise, Kill, _Break, _Continue, _Return, run_world, pure_jobs, assigned, isz

RDm = load.RestrictedDatatype
I, B = z3.IntSort(), z3.BoolSort()
count = z3.Function("objects_count", I, I, I)
elem = z3.Function("object", I, I, I, I)
is_lit, has_dt, dt_of = z3.Function("is_literal", I, B), z3.Function("has_datatype", I, B), z3.Function("datatype", I, I)
in_table, conv_ok, ctor_ok = z3.Function("has_conversion", I, B), z3.Function("converts", I, I, B), z3.Function("facets_fit", I, B)
FACETABLE = [XSD[n] for n in ("decimal integer nonNegativeInteger nonPositiveInteger positiveInteger negativeInteger long int short byte unsignedLong unsignedInt unsignedShort unsignedByte double float "
                              "dateTime dateTimeStamp time date hexBinary base64Binary anyURI string NMTOKEN Name NCName language normalizedString token").split()] + [RDF.PlainLiteral]
_ids = {}


def const(u): return z3.IntVal(_ids.setdefault(u, len(_ids) + 1))


class Term(SV):
    by_value = True

    def __init__(self, e): self.e = e

    def eq(self, w, o):
        if isinstance(o, Term): return self.e == o.e
        if isinstance(o, Node): return self.e == const(o)
        return False

    def is_(self, w, o): return False
    def truth(self, w): return w.fresh("nonempty", B)
    def text(self, w): return Txt(self.e)

    def isinst(self, w, cls):
        if cls is Literal: return is_lit(self.e)
        if cls in (Node, Identifier, str, object): return True
        if cls in (URIRef, BNode): return z3.And(z3.Not(is_lit(self.e)), z3.Function("is_" + cls.__name__, I, B)(self.e))
        raise Unsupported("isinstance of a term")

    def getattr(self, w, name):
        if name == "datatype":
            if not w.decide(is_lit(self.e)): raise PyRaise(AttributeError, (name,))
            return Term(dt_of(self.e)) if w.decide(has_dt(self.e)) else None
        raise Unsupported("attribute %s of a term" % name)


class Txt(SV):
    """str() of a term"""
    def __init__(self, e): self.e = e
    def isinst(self, w, cls): return issubclass(str, cls)
    def truth(self, w): return w.fresh("nonempty", B)
    def text(self, w): return self


class Value(SV):
    """the converted value of a literal"""
    def __init__(self, dt, e): self.dt, self.e = dt, e


class Table(SV):
    """AltXSDToPYTHON"""
    def contains(self, w, k): return in_table(k.e) if isinstance(k, Term) else in_table(const(k))
    def truth(self, w): return True

    def getitem(self, w, k):
        k = k if isinstance(k, Term) else Term(const(k))
        if not w.decide(in_table(k.e)): raise PyRaise(KeyError, (k,))
        return Conv(k.e)

    def getattr(self, w, name):
        if name == "__getitem__": return Fn(name, lambda w, a, k: self.getitem(w, a[0]))
        if name == "__contains__": return Fn(name, lambda w, a, k: self.contains(w, a[0]))
        if name == "get": return Fn(name, lambda w, a, k: self.getitem(w, a[0]) if w.decide(self.contains(w, a[0])) else a[1] if len(a) > 1 else None)
        raise Unsupported("%s of the conversions" % name)


class Conv(SV):
    def __init__(self, d): self.d = d
    def truth(self, w): return True

    def call(self, w, a, k):
        if len(a) != 1 or k or not isinstance(a[0], Txt): raise PyRaise(TypeError)
        if not w.decide(conv_ok(self.d, a[0].e)): raise PyRaise(ValueError)
        return Value(self.d, a[0].e)


class Acc(SV):
    """a list under construction: single items and comprehensions"""
    def __init__(self, pieces, root=None): self.pieces, self.root = list(pieces), root or self

    def getattr(self, w, name):
        if name in ("append", "add"): return Fn(name, lambda w, a, k: self.pieces.append(("one", a[0])))
        if name == "extend":
            def ext(w, a, k):
                if isinstance(a[0], Acc): self.pieces.extend(a[0].pieces)
                elif isinstance(a[0], (list, tuple)): self.pieces.extend(("one", x) for x in a[0])
                else: raise Unsupported("extending a list")
            return Fn(name, ext)
        if name in ("_list", "copy"): return Fn(name, lambda w, a, k: Acc(self.pieces))
        raise Unsupported("%s of a list" % name)

    def binop(self, w, op, o, swapped):
        if isinstance(op, ast.Add) and not swapped:
            r = Acc(self.pieces, self.root)
            r.getattr(w, "extend").call(w, [o], {})
            return r
        raise Unsupported("arithmetic on a list")

    def length(self, w):
        if not self.pieces: return 0
        n = w.fresh("length", I)
        w.assume(n >= 0)
        return n

    def truth(self, w): return self.length(w) > 0 if self.pieces else False


class Coll(SV):
    """what a query of the graph yields"""
    def __init__(self, world, key, make, n=None, at=None, lazy=True): self.world, self.key, self.make, self.n, self.at, self.lazy = world, key, make, n, at, lazy
    def length(self, w):
        if self.lazy: raise PyRaise(TypeError)
        return self.size()

    def size(self):
        if self.n is None: raise Unsupported("size of a query result")
        return self.n

    def truth(self, w): return True if self.lazy else self.size() > 0
    def fixed(self): return Coll(self.world, self.key, self.make, self.n, self.at, False)

    def getattr(self, w, name):
        if name in ("_list", "copy"): return Fn(name, lambda w, a, k: self.fixed())
        raise Unsupported("%s of a query result" % name)

    def getitem(self, w, k):
        if self.lazy: raise PyRaise(TypeError)
        if not isinstance(k, int): raise Unsupported("index")
        if not w.decide(self.size() > (k if k >= 0 else -k - 1)): raise PyRaise(IndexError)
        return Term(self.at(z3.IntVal(k) if k >= 0 else self.size() + k))

    def iterate(self, w):
        """unpacking: only known sizes"""
        for n in range(3):
            if w.decide(self.size() == n): return [Term(self.at(z3.IntVal(k))) for k in range(n)]
        raise Unsupported("unpacking many")

    def contains(self, w, x): raise Unsupported("membership in a query result")

    def comp(self, w, fr, node, kind):
        gen = node.generators[0]
        if len(node.generators) == 1 and not gen.ifs and isinstance(gen.target, ast.Name) and isinstance(getattr(node, "elt", None), ast.Name) and gen.target.id == node.elt.id: return self.fixed()
        raise Unsupported("comprehension over a query result")

    def loop(self, w, fr, node):
        lists = {n: v for n, v in fr.vars.items() if isinstance(v, (list, Acc))}
        if len({id(v) for v in lists.values()}) != len(lists): raise Unsupported("one list under two names")
        touched = {x.func.value.id for s in node.body for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)} | assigned(node.body)
        lists = {n: v for n, v in lists.items() if n in touched}
        events = self.world.events
        saved_vars = dict(fr.vars)
        x = self.make(w)

        def body():
            fr.vars.clear()
            fr.vars.update(saved_vars)
            fresh = {n: Acc([]) for n in lists}
            fr.vars.update(fresh)
            n0 = len(events)
            try:
                w.assign(fr, node.target, x)
                try:
                    w.block(fr, node.body)
                except _Continue:
                    pass
                new = events[n0:]
            finally:
                del events[n0:]
            return {n: fr.vars[n] if isinstance(fr.vars[n], Acc) and fr.vars[n].root is fresh[n] else None for n in lists}, new
        outs = w.sub(body)
        fr.vars.clear()
        fr.vars.update(saved_vars)
        bad = [(pc, o) for pc, o in outs if o[0] == "raise"]
        if any(o[0] not in ("raise", "value") for _, o in outs): raise Unsupported("the loop is left early")
        k = w.choose(1 + len(bad)) if bad else 0
        for n in assigned(node.body) | {t.id for t in ast.walk(node.target) if isinstance(t, ast.Name)}:
            if n not in lists: fr.vars[n] = Opaque()
        if k:
            for c in bad[k - 1][0]: w.assume(c)
            for n in lists: fr.vars[n] = Opaque()
            raise bad[k - 1][1][1]
        paths = [(pc, o[1][0], o[1][1]) for pc, o in outs if o[0] == "value"]
        for n, v in lists.items():
            ps = []
            for pc, d, ev in paths:
                if not isinstance(d[n], Acc): raise Unsupported("the list %s is replaced in the loop" % n)
                ps.append((pc, d[n].pieces, ev))
            if any(p[1] for p in ps):
                if not isinstance(v, Acc): fr.vars[n] = v = Acc([("one", y) for y in v])
                v.pieces.append(("all", self.key, x, ps))
        if self.key[0] != "subjects" and any(e[0] == "ctor" for _, _, ev in paths for e in ev): raise Unsupported("several datatypes for one definition")
        if any(ev for _, _, ev in paths): events.append(("some", self.key, [(pc, ev) for pc, _, ev in paths]))
        w.block(fr, node.orelse)
        return True


class Opaque(SV): pass


class GraphV(SV):
    def __init__(self, world): self.world = world
    def truth(self, w): return w.fresh("graph_nonempty", B)

    def term(self, x): return x.e if isinstance(x, Term) else const(x)

    def objs(self, w, s, p):
        n = count(s, p)
        w.assume(n >= 0)

        def make(w):
            i = w.fresh("i", I)
            w.assume(z3.And(i >= 0, i < n))
            return Term(elem(s, p, i))
        return Coll(self.world, ("objects", s, p), make, n, lambda i: elem(s, p, i))

    def getattr(self, w, name):
        if name == "subjects":
            def sub(w, a, k):
                k = {**dict(zip(("predicate", "object"), a)), **k}
                return Coll(self.world, ("subjects", k.get("predicate"), k.get("object")), lambda w: Term(w.fresh("defined", I)))
            return Fn(name, sub)
        if name == "triples":
            def tri(w, a, k):
                s, p, o = a[0]
                if s is None and p is not None and o is not None: return Coll(self.world, ("subjects", p, o), lambda w: (Term(w.fresh("defined", I)), p, o))
                if s is not None and p is None and o is None: return Coll(self.world, ("po", self.term(s)), lambda w: (s, Term(w.fresh("facet", I)), Term(w.fresh("facet_value", I))))
                raise Unsupported("pattern of statements")
            return Fn(name, tri)
        if name == "objects":
            def obj(w, a, k):
                k = {**dict(zip(("subject", "predicate"), a)), **k}
                return self.objs(w, self.term(k["subject"]), self.term(k["predicate"]))
            return Fn(name, obj)
        if name == "predicate_objects":
            def po(w, a, k):
                s = self.term(a[0] if a else k["subject"])
                return Coll(self.world, ("po", s), lambda w: (Term(w.fresh("facet", I)), Term(w.fresh("facet_value", I))))
            return Fn(name, po)
        if name == "items":
            def items(w, a, k): return Coll(self.world, ("items", self.term(a[0])), lambda w: Term(w.fresh("member", I)))
            return Fn(name, items)
        if name == "value":
            def value(w, a, k):
                k = {**dict(zip(("subject", "predicate", "object"), a)), **k}
                if k.get("object") is not None or set(k) - {"subject", "predicate", "object"}: raise Unsupported("Graph.value")
                c = self.objs(w, self.term(k["subject"]), self.term(k["predicate"]))
                if not w.decide(c.n > 0): return None
                i = w.fresh("any", I)
                w.assume(z3.And(i >= 0, i < c.n))
                return Term(c.at(i))
            return Fn(name, value)
        raise Unsupported("Graph.%s" % name)


class Core(SV):
    def __init__(self, world): self.world = world

    def getattr(self, w, name):
        if name == "add_error":
            def err(w, a, k): self.world.events.append(("error", a[0]))
            return Fn(name, err)
        raise Unsupported("%s of the closure" % name)


class Datatype(SV):
    def __init__(self, args): self.args = args


class Events: pass


def errors(ev):
    """a condition under which an error is recorded"""
    out = []
    for e in ev:
        if e[0] == "error": out.append(z3.BoolVal(True))
        elif e[0] == "some":
            for pc, inner in e[2]:
                c = errors(inner)
                if not z3.is_false(c): out.append(z3.And(*(list(pc) + [c])))
    return z3.simplify(z3.Or(*out + [z3.BoolVal(False)]))


def extract(w):
    world = Events()
    w.substitute(RDm.AltXSDToPYTHON, Table())
    on, wr = const(OWL.onDatatype), const(OWL.withRestrictions)

    def body(w):
        world.events = []

        def new(w, a, k):
            k = {**dict(zip(("type_uri", "base_type", "facets"), a)), **k}
            ok = w.decide(ctor_ok(k["type_uri"].e)) if isinstance(k.get("type_uri"), Term) else True
            world.events.append(("ctor", ok))
            if not ok: raise PyRaise(Exception, ("facets",))
            return Datatype(k)
        w.contract(RDm.RestrictedDatatype, new)
        got = w.call(RDm.extract_faceted_datatypes, [Core(world), GraphV(world)], {})
        ps = got.pieces if isinstance(got, Acc) else None
        if not ps or len(ps) != 1 or ps[0][0] != "all" or ps[0][1] != ("subjects", RDF.type, RDFS.Datatype):
            w.fail("every rdfs:Datatype is looked at", "returns %s" % (ps if ps is not None else got,))
            return
        d = ps[0][2]
        d = (d[0] if isinstance(d, tuple) else d).e
        nb, base, nr, lst = count(d, on), elem(d, on, 0), count(d, wr), elem(d, wr, 0)
        facetable = z3.Or(*[base == const(u) for u in FACETABLE])
        defined = z3.And(nb == 1, facetable, nr == 1)
        for pc, delta, ev in ps[0][3]:
            saved = w.pc
            w.pc = list(saved) + list(pc) + [nb >= 0, nr >= 0]
            if not delta:
                w.prove("every definition yields its datatype", z3.Not(z3.And(defined, ctor_ok(d))))
                mine = [e for e in ev if e[0] != "some"]
                bad = z3.Or(nb > 1, z3.And(nb == 1, facetable, nr > 1), z3.And(defined, z3.Not(ctor_ok(d))))
                w.prove("an impossible definition is reported", z3.Implies(bad, z3.BoolVal(any(e[0] == "error" for e in mine))))
                w.prove("only impossible definitions are reported", z3.Implies(z3.BoolVal(any(e[0] == "error" for e in mine)), bad))
            else:
                w.prove("only definitions yield datatypes", defined)
                if len(delta) != 1 or delta[0][0] != "one" or not isinstance(delta[0][1], Datatype):
                    w.fail("a definition yields one datatype", str(delta))
                else:
                    w.ok("a definition yields one datatype")
                    k = delta[0][1].args
                    w.prove("the datatype is the defined one", k["type_uri"].e == d if isinstance(k.get("type_uri"), Term) else False)
                    w.prove("the base type is the given one", k["base_type"].e == base if isinstance(k.get("base_type"), Term) else False)
                    facets(w, k.get("facets"), lst, ev)
            w.pc = saved
    w.explore(body)


def facets(w, acc, lst, ev):
    """the list of facets holds (facet, value) for exactly the literal facet values that convert"""
    ps = acc.pieces if isinstance(acc, Acc) else None
    if not ps or len(ps) != 1 or ps[0][0] != "all" or ps[0][1][0] != "items":
        w.fail("every facet is taken", "facets %s" % (ps,))
        return
    w.prove("the facets are those of the list", ps[0][1][1] == lst)
    r = ps[0][2].e
    for pc, delta, _ in ps[0][3]:
        saved = w.pc
        w.pc = list(saved) + list(pc)
        if len(delta) != 1 or delta[0][0] != "all" or delta[0][1][0] != "po":
            w.fail("every facet is taken", "a member contributes %s" % (delta,))
            w.pc = saved
            continue
        w.prove("the facets are those of the member", delta[0][1][1] == r)
        f, v = delta[0][2][-2:]
        plain = z3.Or(z3.Not(has_dt(v.e)), dt_of(v.e) == const(XSD.string))
        good = z3.And(is_lit(v.e), z3.Or(plain, z3.And(in_table(dt_of(v.e)), conv_ok(dt_of(v.e), v.e))))
        for pc2, d2, ev2 in delta[0][3]:
            s2 = w.pc
            w.pc = list(s2) + list(pc2)
            if not d2:
                w.prove("every facet is taken", z3.Not(good))
                w.prove("a facet value that does not convert is reported", z3.Implies(is_lit(v.e), errors(ev2)))
                w.prove("only literal facet values are reported", z3.Implies(errors(ev2), is_lit(v.e)))
            elif len(d2) != 1 or d2[0][0] != "one" or not isinstance(d2[0][1], tuple) or len(d2[0][1]) != 2: w.fail("one pair for each facet", str(d2))
            else:
                a, b = d2[0][1]
                w.prove("only literal facets that convert are taken", good)
                w.prove("the facet is the predicate", a.e == f.e if isinstance(a, Term) else False)
                if isinstance(b, Txt): w.prove("the value is the converted literal", z3.And(b.e == v.e, plain))
                elif isinstance(b, Value): w.prove("the value is the converted literal", z3.And(b.e == v.e, z3.Not(plain), b.dt == dt_of(v.e)))
                else: w.fail("the value is the converted literal", str(b))
            w.pc = s2
        w.pc = saved


def extracted(led): pure_jobs(led, [run_world("extract_faceted_datatypes", extract)])
