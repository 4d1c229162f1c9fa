"""C14: RestrictedDatatype accepts exactly the values within all its facets.  By induction on the list of facets: with no facet
everything is accepted; from an arbitrary state of the object, one more turn of the facet loop yields a state that accepts a
value exactly when the old state does and the value satisfies that facet."""
import re
from rdflib import Literal, URIRef
from rdflib.namespace import XSD
from .pure import *  # noqa: F401,F403
from .pure import _Break, _Continue, _Return
from . import load
from .plang import PStr, Tok, f_fold, tconst, f_len, _consts

RDm = load.RestrictedDatatype
B, I, R = z3.BoolSort(), z3.IntSort(), z3.RealSort()
FM = z3.Function("fullmatch", Tok, Tok, B)
LR = z3.Function("lang_range_matches", Tok, Tok, B)
MATCH = z3.Function("prefix_match", Tok, Tok, B)
SEARCH = z3.Function("search_match", Tok, Tok, B)
LANGRANGE = URIRef("http://www.w3.org/1999/02/22-rdf-syntax-ns#langRange")
FACETS = {XSD.minInclusive: "bound", XSD.minExclusive: "bound", XSD.maxInclusive: "bound", XSD.maxExclusive: "bound", XSD.length: "int", XSD.minLength: "int", XSD.maxLength: "int", XSD.pattern: "str",
          LANGRANGE: "str", XSD.fractionDigits: "str", URIRef("http://example.org/facet"): "str"}


class Rx(SV):
    """a compiled pattern"""
    def __init__(self, e): self.e = e

    def getattr(self, w, name):
        fn = {"fullmatch": FM, "match": MATCH, "search": SEARCH}.get(name)
        if fn is None: raise Unsupported("pattern method %s" % name)

        def m(w, a, k):
            if len(a) != 1 or not isinstance(a[0], PStr): raise PyRaise(TypeError, ("expected string",))
            return MatchObj() if w.decide(fn(self.e, a[0].e)) else None
        return Fn(name, m)

    def truth(self, w): return True


class MatchObj(SV):
    def truth(self, w): return True


class PlainLit(SV):
    """an rdflib literal as rdf:PlainLiteral is converted to"""
    def __init__(self, s, lang): self.s, self.lang = s, lang

    def getattr(self, w, name):
        if name == "language": return self.lang
        raise Unsupported("attribute %s of a literal" % name)

    def isinst(self, w, cls): return issubclass(Literal, cls)
    def text(self, w): return PStr(self.s)
    def length(self, w): return f_len(self.s)
    def truth(self, w): return f_len(self.s) > 0


class Octets(SV):
    def __init__(self, n): self.n = n
    def length(self, w): return self.n
    def isinst(self, w, cls): return issubclass(bytes, cls)
    def truth(self, w): return self.n > 0


class SymList(SV):
    """a list: an arbitrary part (elements elem(k), k < n) and what was appended to it"""
    def __init__(self, name, elem, tail=()):
        self.name, self.elem, self.tail = name, elem, list(tail)
        self.n = z3.Int("len_%s" % name)

    def copy(self): return SymList(self.name, self.elem, self.tail)

    def getattr(self, w, name):
        if name == "append": return Fn(name, lambda w, a, k: self.tail.append(a[0]))
        if name == "extend": return Fn(name, lambda w, a, k: self.tail.extend(a[0]))
        if name == "copy": return Fn(name, lambda w, a, k: self.copy())
        if name == "_list": return Fn(name, lambda w, a, k: self.copy())
        raise Unsupported("list method %s" % name)

    def binop(self, w, op, other, swapped):
        if isinstance(op, ast.Add) and not swapped and isinstance(other, list): return SymList(self.name, self.elem, self.tail + other)
        raise Unsupported("list operator")

    def length(self, w):
        w.assume(self.n >= 0)
        return self.n + len(self.tail)

    def truth(self, w): return z3.Or(self.n > 0, z3.BoolVal(bool(self.tail)))

    def each(self, w, body, frame):
        """body(x) for the arbitrary elements; leaves by the exceptions of body, or returns 'end' or 'break'"""
        w.assume(self.n >= 0)
        k = w.fresh("k", I)
        before = dict(frame.vars)
        probe = w.sub(lambda: body(self.elem(k)))
        for pc, r in probe:
            for c in pc:
                for v in z3util_vars(c):
                    if v.decl().name().startswith("k!") or "!" not in v.decl().name(): continue
        stops = [z3.And(*pc) if pc else z3.BoolVal(True) for pc, r in probe if r[0] != "value"]
        if not stops: return "end"
        frame.vars = before
        stop = z3.Or(*stops)
        if w.choose(2) == 0:
            w.assume(z3.And(0 <= k, k < self.n))
            w.assume(stop)
            try:
                body(self.elem(k))
            except _Break:
                return "break"
            except _Continue:
                pass
            raise Kill()
        j = z3.Int("j")
        w.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), z3.Not(z3.substitute(stop, (k, j)))), patterns=[self.key(j)]))
        return "end"

    def key(self, j): return z3.Function("at_%s" % self.name, I, Tok)(j)

    def pure(self, fr, node):
        """the loop keeps no state from one turn to the next"""
        if isinstance(node, ast.For):
            names = assigned(node.body) - assigned([node.target])
            for n in names:
                if n in fr.vars: raise Unsupported("loop over %s assigns %s" % (self.name, n))
            for x in ast.walk(node):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)): raise Unsupported("loop over %s writes" % self.name)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "add", "extend", "pop", "remove", "insert", "clear"): raise Unsupported("loop over %s writes" % self.name)

    def loop(self, w, fr, node):
        self.pure(fr, node)

        def body(x):
            w.assign(fr, node.target, x)
            w.block(fr, node.body)
        if self.each(w, body, fr) == "break": return True
        for x in list(self.tail):
            try:
                body(x)
            except _Break:
                return True
            except _Continue:
                continue
        w.block(fr, node.orelse)
        return True

    def comp(self, w, fr, node, kind):
        g = node.generators[0]
        if kind == "gen": return Gen(self, fr, node)
        return NotImplemented

    def eq(self, w, o): return self is o


def z3util_vars(c):
    out, stack = [], [c]
    while stack:
        x = stack.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        stack.extend(x.children())
    return out


class Gen(SV):
    """all(...) and any(...) over such a list"""
    def __init__(self, l, fr, node): self.l, self.fr, self.node = l, fr, node

    def getattr(self, w, name):
        if name not in ("_all", "_any"): raise Unsupported("generator")

        def run(w, a, k):
            g = self.node.generators[0]
            f2 = Frame(self.fr.g, self.fr, {}, self.fr.owner, set())

            def body(x):
                w.assign_comp(f2, g.target, x)
                if not all(w.truth(w.ev(f2, c)) for c in g.ifs): return
                if w.truth(w.ev(f2, self.node.elt)) != (name == "_all"): raise _Break()
            if self.l.each(w, body, f2) == "break": return name == "_any"
            for x in list(self.l.tail):
                try:
                    body(x)
                except _Break:
                    return name == "_any"
            return name == "_all"
        return Fn(name, run)


class Lazy:
    """an attribute with an arbitrary value of its kind, settled when it is looked at"""
    def __init__(self, name, kind): self.name, self.kind = name, kind


class RD(Obj):
    def getattr(self, w, name):
        v = self.attrs.get(name)
        if isinstance(v, Lazy):
            key = v.name
            if key not in w.settled:
                w.settled[key] = None if w.choose(2) == 0 else z3.Const("state_%s" % name, R if v.kind == "real" else I)
            return w.settled[key]
        return super().getattr(w, name)


class FacetList(SV):
    """an arbitrary list of facets, seen at an arbitrary turn of the loop"""
    def __init__(self, facet, val): self.facet, self.val, self.n = facet, val, 0

    def loop(self, w, fr, node):
        self.n += 1
        if self.n > 1: raise Unsupported("the facets are read more than once")
        me = [v for v in fr.vars.values() if isinstance(v, Obj)]
        if len(me) != 1: raise Unsupported("the loop over the facets does not belong to one object")
        for n in assigned(node.body) - assigned([node.target]):
            if n in fr.vars: raise Unsupported("state of the facet loop in the local variable %s" % n)
        me = me[0]
        w.me = me
        for a, kind in w.state.items():
            if kind == "list": me.attrs[a] = SymList(a, w.elems[a])
            else: me.attrs[a] = Lazy(a, kind)
        w.before = {a: (v.copy() if isinstance(v, SymList) else v) for a, v in me.attrs.items()}
        w.assign(fr, node.target, (self.facet, self.val))
        try:
            w.block(fr, node.body)
        except _Continue:
            pass
        except _Break:
            w.fail("every facet is read", "the loop is left at facet %s" % self.facet)
            raise Kill()
        for a, v in list(me.attrs.items()):
            o = w.before.get(a, me)
            if o is v or isinstance(v, Lazy): continue
            kind = w.state.get(a)
            good = kind == "list" and isinstance(v, SymList) and v.name == a or kind in ("real", "int") and (v is None or isinstance(v, (int, float)) or isz(v) and v.sort() == (R if kind == "real" else I))
            if not good and not (w.concrete(v) and w.concrete(o) and v == o):
                raise Unsupported("attribute %s becomes %s" % (a, v))
        return True


def value_of(w, cat):
    if cat == RDm.MIN_MAX: return z3.Real("v")
    if cat == RDm.LENGTH:
        n = z3.Int("octets")
        w.assume(n >= 0)
        return Octets(n)
    s = z3.Const("lexical", Tok)
    if cat == RDm.LENGTH_AND_PATTERN: return PStr(s)
    return PlainLit(s, None if w.choose(2) == 0 else PStr(z3.Const("language", Tok)))


def facet_value(facet):
    k = FACETS[facet]
    return z3.Real("facet_value") if k == "bound" else z3.Int("facet_value_n") if k == "int" else PStr(z3.Const("facet_text", Tok))


def satisfied(cat, facet, val, v):
    """whether a value satisfies a facet; facets that do not apply to the base type restrict nothing"""
    T = z3.BoolVal(True)
    if cat == RDm.MIN_MAX:
        return {XSD.minInclusive: lambda: val <= v, XSD.minExclusive: lambda: val < v, XSD.maxInclusive: lambda: v <= val, XSD.maxExclusive: lambda: v < val}.get(facet, lambda: T)()
    n = v.n if isinstance(v, Octets) else f_len(v.e if isinstance(v, PStr) else v.s)
    if facet == XSD.length: return n == val
    if facet == XSD.minLength: return n >= val
    if facet == XSD.maxLength: return n <= val
    if cat == RDm.LENGTH: return T
    if facet == XSD.pattern: return FM(val.e, v.e if isinstance(v, PStr) else v.s)
    if facet == LANGRANGE and cat == RDm.LENGTH_PATTERN_LRANGE: return LR(val.e, v.lang.e) if v.lang is not None else z3.BoolVal(False)
    return T


# the categories as the property states them
CATEGORY = {}
for _d in ("decimal integer nonNegativeInteger nonPositiveInteger positiveInteger negativeInteger long int short byte unsignedLong unsignedInt unsignedShort unsignedByte double float dateTime dateTimeStamp time date").split():
    CATEGORY[XSD[_d]] = 0
for _d in ("hexBinary", "base64Binary"): CATEGORY[XSD[_d]] = 1
for _d in ("anyURI", "string", "NMTOKEN", "Name", "NCName", "language", "normalizedString", "token"): CATEGORY[XSD[_d]] = 2
CATEGORY[URIRef("http://www.w3.org/1999/02/22-rdf-syntax-ns#PlainLiteral")] = 3
CAT = {0: RDm.MIN_MAX, 1: RDm.LENGTH, 2: RDm.LENGTH_AND_PATTERN, 3: RDm.LENGTH_PATTERN_LRANGE}


def setup(w):
    w.substitute(RDm.RestrictedDatatype, RDm.RestrictedDatatype)

    def compile_(w, a, k):
        if len(a) == 1 and isinstance(a[0], PStr): return Rx(a[0].e)
        return NotImplemented

    def one(fn):
        def h(w, a, k):
            if len(a) == 2 and isinstance(a[0], (Rx, PStr)) and isinstance(a[1], PStr): return MatchObj() if w.decide(fn(a[0].e, a[1].e)) else None
            return NotImplemented
        return h
    w.contract(re.compile, compile_)
    w.contract(re.fullmatch, one(FM))
    w.contract(re.match, one(MATCH))
    w.contract(re.search, one(SEARCH))

    def lrange(w, a, k):
        r, l = a
        if not isinstance(r, PStr) or not isinstance(l, PStr): raise PyRaise(AttributeError, ("strip",))
        return LR(r.e, l.e)
    w.contract(RDm._lang_range_check, lrange)


def construct(w, base, facets):
    me = RD(RDm.RestrictedDatatype)
    w.call(RDm.RestrictedDatatype.__init__, [me, URIRef("http://example.org/dt"), base, facets], {})
    return me


def accepts(w, me, v):
    try:
        return w.truth(w.call(me.getattr(w, "checkValue"), [v], {}))
    except PyRaise as e:
        w.fail("checking a value of the base type raises nothing", "%s on the path %s" % (e.cls.__name__, w.show()))
        return False


def discover(w, base):
    """which attributes the facet loop changes, and their kinds"""
    w.state, w.elems, w.settled = {}, {}, {}
    found, elems = {}, {}

    def body(w):
        empty = construct(w, base, [])
        facet = list(FACETS)[w.choose(len(FACETS))]
        me = construct(w, base, [(facet, facet_value(facet))])
        for a, v in me.attrs.items():
            o = empty.attrs.get(a)
            if isinstance(v, list) and v and o == []:
                found[a] = "list"
                x = v[0]
                at = z3.Function("at_%s" % a, I, Tok)
                if isinstance(x, Rx): elems[a] = lambda k, at=at: Rx(at(k))
                elif isinstance(x, PStr): elems[a] = lambda k, at=at: PStr(at(k))
                else: raise Unsupported("attribute %s collects %s" % (a, x))
            elif o is None and isz(v):
                kind = "real" if v.sort() == R else "int"
                if found.get(a, kind) != kind: raise Unsupported("attribute %s has two kinds of values" % a)
                found[a] = kind
            elif not (v is o or isinstance(v, SV) or w.concrete(v) and w.concrete(o) and v == o):
                raise Unsupported("attribute %s changes from %s to %s" % (a, o, v))
    w.explore(body)
    w.state, w.elems = found, elems


def theory():
    t = z3.Const("t", Tok)
    return [z3.ForAll([t], f_len(t) >= 0, patterns=[f_len(t)])]


def build(base, facets):
    cat = CAT[CATEGORY[base]]

    def b(w):
        setup(w)
        w.base = theory()
        discover(w, base)

        def none(w):
            w.settled = {}
            me = construct(w, base, [])
            v = value_of(w, cat)
            w.prove("without facets every value is accepted", accepts(w, me, v))
            for a, want in (("datatype", URIRef("http://example.org/dt")), ("base_type", base)):
                w.prove("attribute %s" % a, me.attrs.get(a) == want)
            w.prove("attribute converter", me.attrs.get("converter") is load.DatatypeHandling.AltXSDToPYTHON[base])
            x = Fn("x", None)
            log = []
            w.contract(RDm._lit_to_value, lambda w, a, k: log.append((a, k)) or a[-1])
            r = w.call(me.getattr(w, "toPython"), [x], {})
            w.prove("toPython is _lit_to_value of the object", r is x and len(log) == 1 and log[0][0][0] is me and log[0][0][1] is x)
        w.explore(none)
        for facet in facets:
            def turn(w):
                w.settled, w.me = {}, None
                val = facet_value(facet)
                v = value_of(w, cat)
                me = construct(w, base, FacetList(facet, val))
                if w.me is None:
                    w.fail("the facets are read", "no loop over the facets")
                    return
                old = RD(RDm.RestrictedDatatype, me.attrs)
                for a in w.state: old.attrs[a] = w.before[a]
                r1 = accepts(w, me, v)
                r0 = accepts(w, old, v)
                w.prove("facet %s: accepted exactly when accepted before and the facet holds" % facet.split("#")[-1].split("/")[-1], z3.BoolVal(r1) == z3.And(z3.BoolVal(r0), satisfied(cat, facet, val, v)))
            w.explore(turn)
    return b


def b_lit_to_value(w):
    setup(w)

    def body(w):
        bases = list(CATEGORY)
        base = bases[w.choose(len(bases))]
        v, val = PStr(z3.Const("lexical", Tok)), Text()
        k = w.choose(3)
        log = []

        def check(w, a, kw):
            log.append(a[-1])
            if w.choose(2) == 0: raise PyRaise(TypeError, ("not comparable",))
            return w.decide(z3.Bool("accepted"))
        me = RD(RDm.RestrictedDatatype, {"datatype": URIRef("http://example.org/dt"), "base_type": base, "checkValue": Fn("checkValue", check)})

        def conv(w, a, kw):
            w.prove("the literal is converted", len(a) == 1 and a[0] is v)
            if w.choose(2) == 0: raise PyRaise(ValueError, ("not in the lexical space",))
            return val
        me.attrs["converter"] = Fn("converter", conv)
        try:
            r = w.call(RDm._lit_to_value, [me, v], {})
        except PyRaise as e:
            w.prove("only ValueError is raised", issubclass(e.cls, ValueError))
            if log: w.prove("an accepted value raises nothing", z3.Not(z3.Bool("accepted")) if z3.Bool("accepted") in [c if not z3.is_not(c) else c.arg(0) for c in w.pc] else True)
            return
        w.prove("a rejected value is not returned", z3.And(z3.BoolVal(log == [val] or bool(log) and all(x is val for x in log)), z3.Bool("accepted")))
        w.prove("the converted value is returned", r is val)
    w.explore(body)


def b_check_literal(w):
    """checkLiteral: the converted lexical form (for rdf:PlainLiteral the literal itself) is checked"""
    setup(w)

    def body(w):
        bases = list(CATEGORY)
        base = bases[w.choose(len(bases))]
        s = z3.Const("lexical", Tok)
        x = PlainLit(s, None)
        want, log = Text(), []
        me = RD(RDm.RestrictedDatatype, {"datatype": URIRef("http://example.org/dt"), "base_type": base})

        def conv(w, a, kw):
            if not (len(a) == 1 and isinstance(a[0], PStr) and a[0].e.eq(s)): w.fail("the lexical form is converted", str(a))
            if w.choose(2) == 0: raise PyRaise(ValueError, ("not in the lexical space",))
            return want

        def check(w, a, kw):
            log.append(a[-1])
            if w.choose(2) == 0: raise PyRaise(TypeError, ("not comparable",))
            return w.decide(z3.Bool("accepted"))
        me.attrs["converter"], me.attrs["checkValue"] = Fn("converter", conv), Fn("checkValue", check)
        try:
            r = w.truth(w.call(me.getattr(w, "checkLiteral"), [x], {}))
        except PyRaise:
            # what the conversion or the comparison raised
            w.ok("an exception comes from the conversion or the check")
            return
        good = x if base == URIRef("http://www.w3.org/1999/02/22-rdf-syntax-ns#PlainLiteral") else want
        w.prove("the literal is accepted exactly when its value is", z3.BoolVal(bool(log) and all(v is good for v in log)) if r is None else z3.And(z3.BoolVal(bool(log) and all(v is good for v in log)), z3.BoolVal(r) == z3.Bool("accepted")))
    w.explore(body)


def facets(led):
    jobs = []
    seen = {}
    for base in CATEGORY:
        c = CATEGORY[base]
        fs = list(FACETS)
        for k in range(0, len(fs), 3 if c else 1):
            jobs.append(run_world("RestrictedDatatype[%s]" % str(base).split("#")[-1], build(base, fs[k:k + (3 if c else 1)])))
    jobs.append(run_world("_lit_to_value", b_lit_to_value))
    jobs.append(run_world("checkLiteral", b_check_literal))
    pure_jobs(led, jobs)
    led.assumptions |= {"facet values and values of an ordered base type are totally ordered (read as numbers); a comparison that raises counts as rejection",
                        "re: fullmatch of a compiled pattern is a function of the pattern and the string; patterns are read as Python regular expressions"}
