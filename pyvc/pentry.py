"""C20: return_closure_class, __parse_input, convert_graph and DeductiveClosure's own arguments, for every combination of
options, spellings, file names and texts."""
import ast
import inspect
import itertools
import re
import sys
import types
import warnings
import z3
from . import load, pstr
from .exec import Unsupported
from .pure import SV, Fn, Obj, Clo, PyRaise, Kill, _Break, _Continue, run_world, pure_jobs, assigned, isz, World
import owlrl
from owlrl import OWLRL_Extension, OWLRL_Extension_Trimming, OWLRL_Semantics, RDFS_Semantics, RDFS_OWLRL_Semantics
from owlrl.Closure import Core
from rdflib import Graph

S = z3.StringSort()
YES, NO = [True, "yes", "Yes", "True", "true"], [False, "no", "No", "False", "false"]
SPELLINGS = YES + NO
PARSE = getattr(owlrl, "__parse_input")
WS = z3.Star(z3.Union(*[z3.Re(c) for c in " \t\n\r\x0b\x0c"]))


def selected(o, r, e, t):
    """[(class, condition)] of the documentation"""
    n = z3.Not
    return [(OWLRL_Extension_Trimming, z3.And(o, e, t)), (OWLRL_Extension, z3.And(o, e, n(t))), (RDFS_OWLRL_Semantics, z3.And(o, n(e), r)),
            (OWLRL_Semantics, z3.And(o, n(e), n(r))), (RDFS_Semantics, z3.And(n(o), r)), (None, z3.And(n(o), n(r)))]


def zbool(w, v):
    """the truth of a value as a formula"""
    if isinstance(v, bool): return z3.BoolVal(v)
    if isz(v) and v.sort() == z3.BoolSort(): return v
    if isinstance(v, SV):
        r = v.truth(w)
        return r if isz(r) else z3.BoolVal(bool(r))
    if isz(v): return z3.BoolVal(w.truth(v))
    return z3.BoolVal(bool(v))


class Opt(SV):
    """an option: one of finitely many values"""
    by_value = True

    def __init__(self, values, kind): self.values, self.kind = values, kind
    def where(self, p): return z3.simplify(z3.Or(*[self.kind == i for i, v in enumerate(self.values) if p(v)] + [z3.BoolVal(False)]))
    def truth(self, w): return self.where(bool)
    def is_(self, w, o): return self.where(lambda v: v is o) if o is None or isinstance(o, bool) else False
    def isinst(self, w, cls): return self.where(lambda v: isinstance(v, cls))

    def eq(self, w, o):
        if isinstance(o, Opt): return z3.Or(*[z3.And(self.kind == i, o.kind == j) for i, a in enumerate(self.values) for j, b in enumerate(o.values) if a == b] + [z3.BoolVal(False)])
        if isinstance(o, SV) or isz(o): raise Unsupported("comparing an option with %s" % o)
        return self.where(lambda v: v == o)

    def text(self, w): return Opt([str(v) for v in self.values], self.kind)

    def getattr(self, w, name):
        if name in ("lower", "upper", "casefold", "strip", "title", "capitalize", "swapcase"):
            if w.decide(self.where(lambda v: not isinstance(v, str))): raise PyRaise(AttributeError, (name,))
            return Fn(name, lambda w, a, k: Opt([getattr(v, name)(*a) if isinstance(v, str) else v for v in self.values], self.kind))
        if name in ("startswith", "endswith"):
            if w.decide(self.where(lambda v: not isinstance(v, str))): raise PyRaise(AttributeError, (name,))
            return Fn(name, lambda w, a, k: self.where(lambda v: isinstance(v, str) and getattr(v, name)(*a)))
        raise Unsupported("attribute %s of an option" % name)

    def getitem(self, w, k):
        if w.decide(self.where(lambda v: not isinstance(v, str))): raise PyRaise(TypeError)
        return Opt([v[k] if isinstance(v, str) else v for v in self.values], self.kind)


def pure_calls(w, events):
    """the result of a yes/no function of options is merged into one formula"""
    def merge(w, f, args, kw):
        vals = list(args) + list(kw.values())
        if not (isinstance(f, Clo) or isinstance(f, types.FunctionType) and w.of_package(f) and id(f) not in w.contracts) or not vals or not any(isinstance(x, Opt) for x in vals) or not all(isinstance(x, Opt) or w.concrete(x) for x in vals): return NotImplemented
        n = len(events)

        def body(): return w.truth_value(w.call_plain(f, list(args), kw))
        pc, solver = w.pc, w.solver
        w.pc, w.solver = [], None                       # the value does not depend on the path
        try:
            outs = w.sub(body)
        finally:
            w.pc, w.solver = pc, solver
        if len(events) != n: raise Unsupported("a function of an option with side effects")
        if not outs or any(o[0] != "value" or not isinstance(o[1], bool) for _, o in outs): return NotImplemented
        return z3.simplify(z3.Or(*[z3.And(*(list(pc) + [z3.BoolVal(True)])) for pc, o in outs if o[1]] + [z3.BoolVal(False)]))
    w.hooks["merge"] = merge


class EWorld(World):
    """adds the merging of yes/no functions"""
    def call(self, f, args, kw):
        h = self.hooks.get("merge")
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NotImplemented: return r
        return self.call_plain(f, args, kw)

    def call_plain(self, f, args, kw): return World.call(self, f, args, kw)

    def truth_value(self, v):
        if v is None or isinstance(v, SV) and not isinstance(v, Opt): raise Unsupported("value of an option function")
        return self.truth(v)


# ----- class selection ----------------------------------------------------------------------------------------------
def selection(given):
    def build(w):
        def body(w):
            o, r, e, t = [w.fresh(n, z3.BoolSort()) for n in ("owl", "rdfs", "extras", "trimming")]
            args = [o, r, e] + ([t] if given else [])
            got = w.call(owlrl.return_closure_class, args, {})
            cond = dict((id(c), f) for c, f in selected(o, r, e, t if given else z3.BoolVal(False)))
            if id(got) not in cond: w.fail("the documented class is selected", "selects %s" % (got,))
            else: w.prove("the documented class is selected", cond[id(got)])
        w.explore(body)
    return build


# ----- reading one source -------------------------------------------------------------------------------------------
def strings(w):
    pstr.install(w)
    old = w.hooks["zattr"]

    def zattr(w, s, name):
        if name in ("strip", "lstrip", "rstrip") and s.sort() == S:
            f = old(w, s, name)

            def strip(w, a, k):
                r = f.call(w, a, k)
                if not a: w.assume((z3.Length(r) == 0) == z3.InRe(s, WS))
                return r
            return Fn(name, strip)
        return old(w, s, name)
    w.hooks["zattr"] = zattr


class GraphV(SV):
    def __init__(self, events): self.events = events
    def truth(self, w): raise Unsupported("truth of a graph")

    def getattr(self, w, name):
        if name == "parse":
            def parse(w, a, k):
                k = {**dict(zip(("source", "publicID", "format", "location", "file", "data"), a)), **k}
                self.events.append(("parse", self, k))
                return self
            return Fn(name, parse)
        if name == "serialize":
            def ser(w, a, k):
                k = {**dict(zip(("destination", "format", "base", "encoding"), a)), **k}
                r = Serialized(self, k)
                self.events.append(("serialize", self, k, r))
                return r
            return Fn(name, ser)
        if name in ("bind", "close", "commit"): return Fn(name, lambda w, a, k: None)
        raise Unsupported("Graph.%s" % name)


class Serialized(SV):
    def __init__(self, g, k): self.g, self.k = g, k


FORMATS = {"turtle": ("turtle", "ttl"), "json-ld": ("json-ld",), "rdfa1.1": ("rdfa1.1", "rdfa", "html"), "xml": ("xml", "application/rdf+xml", "rdf")}


def ends(s, *xs): return z3.Or(*[z3.SuffixOf(z3.StringVal(x), s) for x in xs])


def parse_input(w):
    strings(w)

    def body(w):
        fmt, inp = w.fresh("iformat", S), w.fresh("inp", S)
        events = []
        g = GraphV(events)
        known = [("auto", None), ("turtle", "turtle"), ("rdfa", "rdfa1.1"), ("xml", "xml"), ("rdfxml", "xml"), ("json", "json-ld")]
        w.assume(z3.Or(*[fmt == z3.StringVal(k) for k, _ in known]))
        w.call(PARSE, [fmt, inp, g], {})
        ps = [e for e in events if e[0] == "parse"]
        if len(ps) != 1 or len(events) != 1:
            w.fail("the source is read", "%d calls of parse" % len(ps))
            return
        k = {n: v for n, v in ps[0][2].items() if v is not None}
        src = [k[n] for n in ("source", "location", "file", "data") if n in k]
        if len(src) != 1 or "data" in k: w.fail("the source is read", "arguments %s" % sorted(k))
        elif src[0] is sys.stdin: w.prove("the source is read", inp == z3.StringVal("-"))
        elif isz(src[0]): w.prove("the source is read", z3.And(src[0] == inp, inp != z3.StringVal("-")))
        elif isinstance(src[0], str): w.prove("the source is read", z3.And(z3.StringVal(src[0]) == inp, inp != z3.StringVal("-")))
        else: w.fail("the source is read", "reads %s" % (src[0],))
        f = k.get("format")
        auto, std = fmt == z3.StringVal("auto"), inp == z3.StringVal("-")
        a = [z3.Or(std, ends(inp, ".ttl", ".n3")), ends(inp, ".json", ".jsonld"), ends(inp, ".html")]
        when = {"turtle": z3.And(auto, a[0]), "json-ld": z3.And(auto, z3.Not(a[0]), a[1]), "rdfa1.1": z3.And(auto, z3.Not(z3.Or(*a[:2])), a[2]), "xml": z3.And(auto, z3.Not(z3.Or(*a)))}
        for name, target in known:
            if target: when[target] = z3.Or(when[target], fmt == z3.StringVal(name))
        for target, names in FORMATS.items():
            if f in names:
                w.prove("the source is read in the requested format", when[target])
                break
        else:
            w.fail("the source is read in the requested format", "format %s" % (f,))
    w.explore(body)


# ----- conversion ---------------------------------------------------------------------------------------------------
class Seen(SV):
    """a collection a loop over the sources fills: what it holds has been read in an earlier turn"""
    def __init__(self, w):
        w.counter += 1
        self.p, self.added = z3.Function("seen!%d" % w.counter, S, z3.BoolSort()), []

    def contains(self, w, x):
        if not isz(x) or x.sort() != S: raise Unsupported("membership of %s" % x)
        return z3.Or(self.p(x), *[x == y for y in self.added])

    def truth(self, w): return w.fresh("seen_any", z3.BoolSort())

    def getattr(self, w, name):
        if name in ("add", "append"):
            def add(w, a, k): self.added.append(a[0])
            return Fn(name, add)
        raise Unsupported("%s of a collection of sources" % name)

    def setitem(self, w, k, v): self.added.append(k)


class Sources(SV):
    """options.sources: any number of names, and what has been appended"""
    def __init__(self, w, conf, extra=()): self.conf, self.extra = conf, list(extra)
    def length(self, w): return self.conf.n + len(self.extra)
    def truth(self, w): return self.conf.n + len(self.extra) > 0
    def copy(self, w): return Sources(w, self.conf, self.extra)

    def getattr(self, w, name):
        if name in ("append", "add"):
            def app(w, a, k): self.extra.append(a[0])
            return Fn(name, app)
        if name == "extend":
            def ext(w, a, k): self.extra.extend(a[0])
            return Fn(name, ext)
        if name in ("_list", "copy", "keys"): return Fn(name, lambda w, a, k: self.copy(w))
        raise Unsupported("%s of the sources" % name)

    def binop(self, w, op, o, swapped):
        if isinstance(op, (ast.Add, ast.BitOr)) and isinstance(o, (list, tuple, set)): return Sources(w, self.conf, self.extra + list(o))
        raise Unsupported("arithmetic on the sources")

    def contains(self, w, x):
        if not isz(x): raise Unsupported("membership in the sources")
        return z3.Or(self.conf.member(x), *[x == y for y in self.extra])

    def comp(self, w, fr, node, kind):
        gen = node.generators[0]
        if len(node.generators) == 1 and not gen.ifs and isinstance(gen.target, ast.Name) and isinstance(getattr(node, "elt", None), ast.Name) and node.elt.id == gen.target.id: return self.copy(w)
        raise Unsupported("comprehension over the sources")

    def loop(self, w, fr, node):
        seen = [n for n, v in fr.vars.items() if isinstance(v, (set, list, dict)) and not v]
        for n in seen: fr.vars[n] = Seen(w)
        for n in assigned(node.body): fr.vars.pop(n, None)
        boxes = {n: fr.vars[n] for n in seen}
        events = self.conf.events
        other = [x for x in self.extra]
        for k in range(len(other) + 1):
            own = k == len(other)
            elem = w.fresh("source", S) if own else other[k]

            def body():
                if own:
                    w.assume(self.conf.member(elem))
                    w.assume(self.conf.n > 0)
                n0, marks = len(events), {n: len(b.added) for n, b in boxes.items()}
                w.assign(fr, node.target, elem)
                try:
                    w.block(fr, node.body)
                except _Continue:
                    pass
                new, adds = events[n0:], [(b, b.added[marks[n]:]) for n, b in boxes.items()]
                del events[n0:]
                for n, b in boxes.items(): del b.added[marks[n]:]
                return new, adds
            saved, good = w.pc, True
            for pc, out in w.sub(body):
                if out[0] == "raise": raise out[1]
                w.pc = saved + list(pc)
                if out[0] != "value":
                    w.fail("every source is read", "the loop over the sources is left by %s" % out[0])
                    good = False
                    continue
                new, adds = out[1]
                reads = [e for e in new if e[0] == "source"]
                if len(reads) != len(new): raise Unsupported("other calls in the loop over the sources")
                for e in reads:
                    if not (isz(e[1]) and w.prove("every source is read", e[1] == elem)): w.fail("every source is read", "reads %s" % (e[1],))
                if not reads:
                    good = w.prove("every source is read", z3.Or(*[b.p(elem) for b in boxes.values()] + [z3.BoolVal(False)])) and good
                for b, xs in adds:
                    for x in xs: w.prove("only what has been read is skipped", z3.And(isz(x) and x == elem, z3.BoolVal(bool(reads))) if isz(x) else False)
            w.pc = saved
            if good: events.append(("read", "own" if own else elem))
        for n in list(assigned(node.body)) + [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)]: fr.vars[n] = Opaque()
        w.block(fr, node.orelse)
        return True


class Opaque(SV): pass


class Options(SV):
    def __init__(self, attrs): self.attrs = attrs

    def getattr(self, w, name):
        if name not in self.attrs: raise PyRaise(AttributeError, (name,))
        return self.attrs[name]

    def setattr(self, w, name, v): self.attrs[name] = v


class Conf: pass


class Explicit(Core): pass


DC = owlrl.DeductiveClosure
SIGNATURE = inspect.signature(DC.__init__)


class Closure(SV):
    def __init__(self, events, k): self.events, self.k = events, k

    def getattr(self, w, name):
        if name == "expand":
            def expand(w, a, k):
                k = {**dict(zip(("graph", "destination"), a)), **k}
                self.events.append(("expand", self, k))
            return Fn(name, expand)
        raise Unsupported("DeductiveClosure.%s" % name)


def conversion(case):
    """one world per presence of the optional attributes"""
    has_iformat, source, has_trimming, text, explicit = case

    def build(w):
        strings(w)
        w.contract(warnings.filterwarnings, lambda w, a, k: None)
        w.contract(warnings.simplefilter, lambda w, a, k: None)
        pure_calls(w, [])

        def body(w):
            events = []
            c = Conf()
            c.events = events
            pure_calls(w, events)
            c.n = w.fresh("sources", z3.IntSort())
            w.assume(c.n >= 0)
            w.counter += 1
            mem = z3.Function("is_source!%d" % w.counter, S, z3.BoolSort())
            c.member = lambda x: mem(x)
            opts = {}
            for n in ("owlClosure", "rdfsClosure", "owlExtras", "axioms", "daxioms") + (("trimming",) if has_trimming else ()):
                k = w.fresh(n, z3.IntSort())
                w.assume(z3.And(k >= 0, k < len(SPELLINGS)))
                opts[n] = Opt(SPELLINGS, k)
            yes = {n: o.where(lambda v: v is True or v in YES[1:]) for n, o in opts.items()}
            yes.setdefault("trimming", z3.BoolVal(False))
            opts["sources"] = Sources(w, c)
            opts["text"] = t = w.fresh("text", S) if text else None
            w.assume(z3.Or(c.n > 0, z3.Not(z3.InRe(t, WS))) if text else c.n > 0)
            opts["format"] = fmt = w.fresh("format", S)
            ifmt = z3.StringVal("auto")
            if has_iformat: opts["iformat"] = ifmt = w.fresh("iformat", S)
            src = None
            if source: opts["source"] = src = None if source == "none" else w.fresh("extra", S)

            def read(w, a, k):
                k = {**dict(zip(("iformat", "inp", "graph"), a)), **k}
                events.append(("source", k.get("inp"), k.get("graph"), k.get("iformat")))
                if not same(w, k.get("iformat"), ifmt): w.fail("sources are read in the requested format", "format %s" % (k.get("iformat"),))
                graphs.add(k.get("graph"))
            graphs = set()

            def imports(w, a, k):
                k = {**dict(zip(("iformat", "graph"), a)), **k}
                events.append(("imports", k.get("graph")))
                if not same(w, k.get("iformat"), ifmt): w.fail("imports are read in the requested format", "format %s" % (k.get("iformat"),))
            w.contract(PARSE, read)
            w.contract(owlrl.interpret_owl_imports, imports)
            w.contract(Graph, lambda w, a, k: GraphV(events))

            def closure(w, a, k):
                try:
                    b = SIGNATURE.bind(None, *a, **k)
                except TypeError as e:
                    raise PyRaise(TypeError, e.args)
                b.apply_defaults()
                return Closure(events, b.arguments)
            w.contract(DC, closure)
            setlike = lambda w, a, k: a[0].copy(w) if a and isinstance(a[0], Sources) else NotImplemented
            for f in (set, frozenset, sorted, list, tuple): w.contract(f, setlike) if f not in (list, tuple) else None
            w.named["type.fromkeys"] = w.named["dict.fromkeys"] = setlike
            try:
                got = w.call(owlrl.convert_graph, [Options(opts)] + ([Explicit] if explicit else []), {})
            except PyRaise as e:
                w.fail("the conversion ends normally", "%s escapes on the path %s" % (e.cls.__name__, w.show()))
                return
            kinds = [e[0] for e in events]
            gs = [e[1] for e in events if e[0] in ("parse", "serialize")] + [e[2].get("graph") for e in events if e[0] == "expand"] + [e[1] for e in events if e[0] == "imports"] + list(graphs)
            if any(x is not gs[0] for x in gs) or gs and not isinstance(gs[0], GraphV): w.fail("one graph goes through all steps", "different graphs")
            else: w.ok("one graph goes through all steps")
            order = {"read": 0, "source": 0, "parse": 0, "imports": 1, "expand": 2, "serialize": 3}
            if [order[k] for k in kinds] != sorted(order[k] for k in kinds): w.fail("reading, imports, expansion and output in this order", str(kinds))
            else: w.ok("reading, imports, expansion and output in this order")
            # sources
            own = any(e[0] == "read" and isinstance(e[1], str) for e in events)
            w.prove("every source is read", z3.Or(c.n == 0, z3.BoolVal(own)))
            if src is not None:
                reads = [e[1] for e in events if e[0] in ("read", "source") and isz(e[1])]
                w.prove("the additional source is read", z3.Or(*[x == src for x in reads] + [z3.And(z3.BoolVal(own), mem(src)), z3.BoolVal(False)]))
            for e in events:
                if e[0] == "source": w.prove("only sources are read", e[1] == src if isz(e[1]) and src is not None else z3.BoolVal(False))
                if e[0] == "read" and isz(e[1]): w.prove("only sources are read", e[1] == src if src is not None else z3.BoolVal(False))
            # text
            parses = [e[2] for e in events if e[0] == "parse"]
            for k in parses:
                if not text or not same(w, k.get("data"), t) or k.get("format") not in ("n3", "turtle", "ttl") or {n for n, v in k.items() if v is not None} - {"data", "format"}:
                    w.fail("the text is read as Turtle", "parse%s" % (k,))
            if text: w.prove("the text is read as Turtle", z3.Or(z3.BoolVal(bool(parses)), z3.InRe(t, WS)))
            # imports
            n = kinds.count("imports")
            w.prove("imports are followed exactly for OWL processing", yes["owlClosure"] == z3.BoolVal(n > 0))
            # expansion
            exps = [e for e in events if e[0] == "expand"]
            cond = [(Explicit, z3.BoolVal(True))] if explicit else selected(*[yes[x] for x in ("owlClosure", "rdfsClosure", "owlExtras", "trimming")])
            when = {id(cl): f for cl, f in cond}
            if not exps: w.prove("the documented class is used", when.get(id(None), z3.BoolVal(False)))
            elif len(exps) > 1: w.fail("the documented class is used", "several expansions")
            else:
                k, dest = exps[0][1].k, exps[0][2].get("destination")
                if dest is not None: w.fail("the graph itself is expanded", "destination %s" % dest)
                w.prove("the documented class is used", when.get(id(k["closure_class"]), z3.BoolVal(False)))
                none = k["closure_class"] is None
                for arg, opt in (("rdfs_closure", "rdfsClosure"), ("axiomatic_triples", "axioms"), ("datatype_axioms", "daxioms")):
                    if not none: w.prove("the %s option is passed on" % opt, zbool(w, k[arg]) == yes[opt])
                if not none: w.prove("the improved datatypes are used", zbool(w, k["improved_datatypes"]))
            # output
            sers = [e for e in events if e[0] == "serialize"]
            if len(sers) != 1 or got is not sers[0][3]: w.fail("the serialization is returned", "%d serializations" % len(sers))
            else:
                w.ok("the serialization is returned")
                k = {a: v for a, v in sers[0][2].items() if v is not None}
                f = k.pop("format", "turtle")
                is_ = lambda *xs: z3.Or(*[fmt == z3.StringVal(x) for x in xs])
                out = {"pretty-xml": is_("rdfxml", "xml"), "xml": is_("rdfxml", "xml"), "json-ld": is_("json"), "turtle": z3.Not(is_("rdfxml", "xml", "json")), "ttl": z3.Not(is_("rdfxml", "xml", "json")), "longturtle": z3.Not(is_("rdfxml", "xml", "json"))}
                if k: w.fail("the output format is the requested one", "serialize%s" % k)
                if isz(f): w.fail("the output format is the requested one", "format %s" % f)
                else: w.prove("the output format is the requested one", out.get(f, z3.BoolVal(False)))
        w.explore(body)
    return build


def same(w, a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b) or w.prove("passed on unchanged", a == b)
    if isinstance(a, str) and isz(b): return w.prove("passed on unchanged", z3.StringVal(a) == b)
    return False


# ----- DeductiveClosure ---------------------------------------------------------------------------------------------
CORE = inspect.signature(Core.__init__)


class Token(SV):
    def __init__(self, name): self.name, self.b = name, z3.Bool(name)
    def truth(self, w): return self.b
    def __repr__(self): return self.name


class AnyClass(SV):
    """an arbitrary closure class"""
    def __init__(self, events): self.events = events
    def isinst(self, w, cls): return cls is type or cls is object
    def truth(self, w): return True

    def call(self, w, a, k):
        b = CORE.bind(None, *a, **k)
        self.events.append(("new", b.arguments))
        me = Instance(self.events)
        return me


class Instance(SV):
    def __init__(self, events): self.events = events

    def getattr(self, w, name):
        if name == "closure":
            def closure(w, a, k): self.events.append(("closure",))
            return Fn(name, closure)
        raise Unsupported("%s of a closure" % name)


def expansion(w):
    def body(w):
        events = []
        cls = AnyClass(events)
        ax, dax, rdfs, g, dest = [Token(n) for n in ("axiomatic_triples", "datatype_axioms", "rdfs_closure", "graph", "destination")]
        improved = bool(w.choose(2))
        kw = {"improved_datatypes": improved, "rdfs_closure": rdfs, "axiomatic_triples": ax, "datatype_axioms": dax}
        for n in ("use_Alt_lexical_conversions", "use_RDFLib_lexical_conversions"):
            w.contract(getattr(owlrl.DatatypeHandling, n), lambda w, a, k, n=n: events.append((n,)))
        w.hooks["setattr"] = lambda w, o, n, v: False
        dc = w.call(DC, [cls], kw)
        with_dest = bool(w.choose(2))
        expand = DC.__dict__["expand"]
        w.call(expand, [dc, g] + ([dest] if with_dest else []), {})
        news = [e for e in events if e[0] == "new"]
        if len(news) != 1 or [e[0] for e in events].count("closure") != 1:
            w.fail("the class is run once", str([e[0] for e in events]))
            return
        k = dict(news[0][1])
        for n, v in (("graph", g), ("axioms", ax), ("daxioms", dax), ("rdfs", rdfs), ("destination", dest if with_dest else None)):
            if k.get(n, False) is v: w.ok("%s reaches the closure" % n)
            elif isinstance(v, Token) and n in ("axioms", "daxioms", "rdfs") and (isz(k.get(n)) or isinstance(k.get(n), bool)): w.prove("%s reaches the closure" % n, zbool(w, k[n]) == v.b)
            else: w.fail("%s reaches the closure" % n, "got %s" % (k.get(n),))
        names = [e[0] for e in events]
        i = names.index("new")
        if improved and not DC.improved_datatype_generic and "use_Alt_lexical_conversions" not in names[:i]: w.fail("improved conversions are in force", str(names))
        if not improved and "use_Alt_lexical_conversions" in names[:i]: w.fail("improved conversions are in force", str(names))
    w.explore(body)


def entry(led):
    jobs = [run_world("return_closure_class", selection(True)), run_world("return_closure_class without trimming", selection(False)), run_world("__parse_input", parse_input), run_world("DeductiveClosure", expansion)]
    for case in itertools.product([True, False], [None, "none", "given"], [True, False], [True, False], [False, True]):
        name = "convert_graph [iformat %s, source %s, trimming %s, text %s, class %s]" % tuple({True: "given", False: "missing", None: "missing"}.get(x, x) for x in case)
        jobs.append(run_world(name, conversion(case), EWorld))
    pure_jobs(led, jobs)
