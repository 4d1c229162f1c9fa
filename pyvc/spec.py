"""The specification: declarative rule tables (OWL 2 RL profile Tables 4-7 and 9, RDF/RDFS entailment rules, the documented
extensions), written independently of the code.  The same table is used for the SMT axioms of the proofs and by the
reference engine that replays counterexamples."""
import itertools
from . import load  # noqa: F401
import rdflib
from rdflib import URIRef, Literal, BNode
from rdflib.namespace import RDF, RDFS, OWL, XSD

NS = {"rdf": str(RDF), "rdfs": str(RDFS), "owl": str(OWL), "xsd": str(XSD)}


def term(tok):
    if tok == "a":
        return RDF.type
    if tok.startswith("?"):
        return tok
    p, n = tok.split(":", 1)
    return URIRef(NS[p] + n)


class Rule:
    def __init__(self, name, prem, concl, tables=()):
        self.name, self.prem, self.concl = name, prem, concl      # concl: triple or None (false)

    @property
    def vars(self):
        out = []
        for a in self.prem:
            for x in a[1:]:
                if isinstance(x, str) and not isinstance(x, URIRef) and x.startswith("?") and x not in out:
                    out.append(x)
        return out

    def triples(self):
        return [a[1:] for a in self.prem if a[0] == "T"]

    def __repr__(self):
        return self.name


def isvar(x):
    return isinstance(x, str) and not isinstance(x, (URIRef, Literal, BNode)) and x.startswith("?")


def parse(text):
    rules = []
    for line in text.strip().splitlines():
        line = line.split("%")[0].strip()
        if not line:
            continue
        name, body = line.split("  ", 1)
        lhs, rhs = body.strip().split("->")
        prem = []
        for atom in [a.strip() for a in lhs.split(",") if a.strip()]:
            toks = atom.split()
            if toks[0].isupper():
                args = []
                for t in toks[1:]:
                    args.append(int(t) if t.lstrip("-").isdigit() else term(t))
                prem.append((toks[0],) + tuple(args))
            else:
                assert len(toks) == 3, line
                prem.append(("T",) + tuple(term(t) for t in toks))
        rhs = rhs.strip()
        for r in rhs.split("&"):
            toks = r.split()
            rules.append(Rule(name, prem, None if toks == ["false"] else tuple(term(t) for t in toks)))
    # several conclusions of one rule get an index
    seen = {}
    for r in rules:
        seen[r.name] = seen.get(r.name, 0) + 1
    idx = {}
    for r in rules:
        if seen[r.name] > 1:
            idx[r.name] = idx.get(r.name, 0) + 1
            r.name = "%s.%d" % (r.name, idx[r.name])
    return rules


# MEM l i x: x is item number i of the list l.  VAL x n: x is a literal with value n.
OWLRL = parse("""
eq-ref    ?s ?p ?o -> ?s owl:sameAs ?s & ?p owl:sameAs ?p & ?o owl:sameAs ?o
eq-sym    ?x owl:sameAs ?y -> ?y owl:sameAs ?x
eq-trans    ?x owl:sameAs ?y, ?y owl:sameAs ?z -> ?x owl:sameAs ?z
eq-rep-s    ?s owl:sameAs ?s2, ?s ?p ?o -> ?s2 ?p ?o
eq-rep-p    ?p owl:sameAs ?p2, ?s ?p ?o -> ?s ?p2 ?o
eq-rep-o    ?o owl:sameAs ?o2, ?s ?p ?o -> ?s ?p ?o2
eq-diff1    ?x owl:sameAs ?y, ?x owl:differentFrom ?y -> false
eq-diff2    ?d a owl:AllDifferent, ?d owl:members ?l, MEM ?l ?i ?x, MEM ?l ?j ?y, LT ?i ?j, NEQ ?x ?y, ?x owl:sameAs ?y -> false
eq-diff3    ?d a owl:AllDifferent, ?d owl:distinctMembers ?l, MEM ?l ?i ?x, MEM ?l ?j ?y, LT ?i ?j, NEQ ?x ?y, ?x owl:sameAs ?y -> false
prp-dom    ?p rdfs:domain ?c, ?x ?p ?y -> ?x a ?c
prp-rng    ?p rdfs:range ?c, ?x ?p ?y -> ?y a ?c
prp-fp    ?p a owl:FunctionalProperty, ?x ?p ?y1, ?x ?p ?y2 -> ?y1 owl:sameAs ?y2
prp-ifp    ?p a owl:InverseFunctionalProperty, ?x1 ?p ?y, ?x2 ?p ?y -> ?x1 owl:sameAs ?x2
prp-irp    ?p a owl:IrreflexiveProperty, ?x ?p ?x -> false
prp-symp    ?p a owl:SymmetricProperty, ?x ?p ?y -> ?y ?p ?x
prp-asyp    ?p a owl:AsymmetricProperty, ?x ?p ?y, ?y ?p ?x -> false
prp-trp    ?p a owl:TransitiveProperty, ?x ?p ?y, ?y ?p ?z -> ?x ?p ?z
prp-spo1    ?p1 rdfs:subPropertyOf ?p2, ?x ?p1 ?y -> ?x ?p2 ?y
prp-spo2    ?p owl:propertyChainAxiom ?l, PATH ?l ?u ?v -> ?u ?p ?v
prp-eqp1    ?p1 owl:equivalentProperty ?p2, ?x ?p1 ?y -> ?x ?p2 ?y
prp-eqp2    ?p1 owl:equivalentProperty ?p2, ?x ?p2 ?y -> ?x ?p1 ?y
prp-pdw    ?p1 owl:propertyDisjointWith ?p2, ?x ?p1 ?y, ?x ?p2 ?y -> false
prp-adp    ?d a owl:AllDisjointProperties, ?d owl:members ?l, MEM ?l ?i ?p1, MEM ?l ?j ?p2, LT ?i ?j, ?x ?p1 ?y, ?x ?p2 ?y -> false
prp-inv1    ?p1 owl:inverseOf ?p2, ?x ?p1 ?y -> ?y ?p2 ?x
prp-inv2    ?p1 owl:inverseOf ?p2, ?x ?p2 ?y -> ?y ?p1 ?x
prp-key    ?c owl:hasKey ?l, KEYS ?l ?x ?y, ?x a ?c, ?y a ?c -> ?x owl:sameAs ?y
prp-npa1    ?n owl:sourceIndividual ?i1, ?n owl:assertionProperty ?p, ?n owl:targetIndividual ?i2, ?i1 ?p ?i2 -> false
prp-npa2    ?n owl:sourceIndividual ?i1, ?n owl:assertionProperty ?p, ?n owl:targetValue ?v, ?i1 ?p ?v -> false
cls-nothing2    ?x a owl:Nothing -> false
cls-int1    ?c owl:intersectionOf ?l, NONEMPTY ?l, ALLTYPE ?l ?y -> ?y a ?c
cls-int2    ?c owl:intersectionOf ?l, MEM ?l ?i ?ci, ?y a ?c -> ?y a ?ci
cls-uni    ?c owl:unionOf ?l, MEM ?l ?i ?ci, ?y a ?ci -> ?y a ?c
cls-com    ?c1 owl:complementOf ?c2, ?x a ?c1, ?x a ?c2 -> false
cls-svf1    ?x owl:someValuesFrom ?y, ?x owl:onProperty ?p, ?u ?p ?v, ?v a ?y -> ?u a ?x
cls-svf2    ?x owl:someValuesFrom owl:Thing, ?x owl:onProperty ?p, ?u ?p ?v -> ?u a ?x
cls-avf    ?x owl:allValuesFrom ?y, ?x owl:onProperty ?p, ?u a ?x, ?u ?p ?v, TYPABLE ?v ?y -> ?v a ?y
cls-hv1    ?x owl:hasValue ?y, ?x owl:onProperty ?p, ?u a ?x -> ?u ?p ?y
cls-hv2    ?x owl:hasValue ?y, ?x owl:onProperty ?p, ?u ?p ?y -> ?u a ?x
cls-maxc1    ?x owl:maxCardinality ?n, VAL ?n 0, ?x owl:onProperty ?p, ?u a ?x, ?u ?p ?y -> false
cls-maxc2    ?x owl:maxCardinality ?n, VAL ?n 1, ?x owl:onProperty ?p, ?u a ?x, ?u ?p ?y1, ?u ?p ?y2 -> ?y1 owl:sameAs ?y2
cls-maxqc1    ?x owl:maxQualifiedCardinality ?n, VAL ?n 0, ?x owl:onProperty ?p, ?x owl:onClass ?c, ?u a ?x, ?u ?p ?y, ?y a ?c -> false
cls-maxqc2    ?x owl:maxQualifiedCardinality ?n, VAL ?n 0, ?x owl:onProperty ?p, ?x owl:onClass owl:Thing, ?u a ?x, ?u ?p ?y -> false
cls-maxqc3    ?x owl:maxQualifiedCardinality ?n, VAL ?n 1, ?x owl:onProperty ?p, ?x owl:onClass ?c, ?u a ?x, ?u ?p ?y1, ?y1 a ?c, ?u ?p ?y2, ?y2 a ?c -> ?y1 owl:sameAs ?y2
cls-maxqc4    ?x owl:maxQualifiedCardinality ?n, VAL ?n 1, ?x owl:onProperty ?p, ?x owl:onClass owl:Thing, ?u a ?x, ?u ?p ?y1, ?u ?p ?y2 -> ?y1 owl:sameAs ?y2
cls-oo    ?c owl:oneOf ?l, MEM ?l ?i ?y -> ?y a ?c
cax-sco    ?c1 rdfs:subClassOf ?c2, ?x a ?c1 -> ?x a ?c2
cax-eqc1    ?c1 owl:equivalentClass ?c2, ?x a ?c1 -> ?x a ?c2
cax-eqc2    ?c1 owl:equivalentClass ?c2, ?x a ?c2 -> ?x a ?c1
cax-dw    ?c1 owl:disjointWith ?c2, ?x a ?c1, ?x a ?c2 -> false
cax-adc    ?d a owl:AllDisjointClasses, ?d owl:members ?l, MEM ?l ?i ?c1, MEM ?l ?j ?c2, LT ?i ?j, ?x a ?c1, ?x a ?c2 -> false
scm-cls    ?c a owl:Class -> ?c rdfs:subClassOf ?c & ?c owl:equivalentClass ?c & ?c rdfs:subClassOf owl:Thing & owl:Nothing rdfs:subClassOf ?c
scm-sco    ?c1 rdfs:subClassOf ?c2, ?c2 rdfs:subClassOf ?c3 -> ?c1 rdfs:subClassOf ?c3
scm-eqc1    ?c1 owl:equivalentClass ?c2 -> ?c1 rdfs:subClassOf ?c2 & ?c2 rdfs:subClassOf ?c1
scm-eqc2    ?c1 rdfs:subClassOf ?c2, ?c2 rdfs:subClassOf ?c1 -> ?c1 owl:equivalentClass ?c2
scm-op    ?p a owl:ObjectProperty -> ?p rdfs:subPropertyOf ?p & ?p owl:equivalentProperty ?p
scm-dp    ?p a owl:DatatypeProperty -> ?p rdfs:subPropertyOf ?p & ?p owl:equivalentProperty ?p
scm-p    ?p a rdf:Property -> ?p rdfs:subPropertyOf ?p & ?p owl:equivalentProperty ?p
scm-spo    ?p1 rdfs:subPropertyOf ?p2, ?p2 rdfs:subPropertyOf ?p3 -> ?p1 rdfs:subPropertyOf ?p3
scm-eqp1    ?p1 owl:equivalentProperty ?p2 -> ?p1 rdfs:subPropertyOf ?p2 & ?p2 rdfs:subPropertyOf ?p1
scm-eqp2    ?p1 rdfs:subPropertyOf ?p2, ?p2 rdfs:subPropertyOf ?p1 -> ?p1 owl:equivalentProperty ?p2
scm-dom1    ?p rdfs:domain ?c1, ?c1 rdfs:subClassOf ?c2 -> ?p rdfs:domain ?c2
scm-dom2    ?p2 rdfs:domain ?c, ?p1 rdfs:subPropertyOf ?p2 -> ?p1 rdfs:domain ?c
scm-rng1    ?p rdfs:range ?c1, ?c1 rdfs:subClassOf ?c2 -> ?p rdfs:range ?c2
scm-rng2    ?p2 rdfs:range ?c, ?p1 rdfs:subPropertyOf ?p2 -> ?p1 rdfs:range ?c
scm-hv    ?c1 owl:hasValue ?v, ?c1 owl:onProperty ?p1, ?c2 owl:hasValue ?v, ?c2 owl:onProperty ?p2, ?p1 rdfs:subPropertyOf ?p2 -> ?c1 rdfs:subClassOf ?c2
scm-svf1    ?c1 owl:someValuesFrom ?y1, ?c1 owl:onProperty ?p, ?c2 owl:someValuesFrom ?y2, ?c2 owl:onProperty ?p, ?y1 rdfs:subClassOf ?y2 -> ?c1 rdfs:subClassOf ?c2
scm-svf2    ?c1 owl:someValuesFrom ?y, ?c1 owl:onProperty ?p1, ?c2 owl:someValuesFrom ?y, ?c2 owl:onProperty ?p2, ?p1 rdfs:subPropertyOf ?p2 -> ?c1 rdfs:subClassOf ?c2
scm-avf1    ?c1 owl:allValuesFrom ?y1, ?c1 owl:onProperty ?p, ?c2 owl:allValuesFrom ?y2, ?c2 owl:onProperty ?p, ?y1 rdfs:subClassOf ?y2 -> ?c1 rdfs:subClassOf ?c2
scm-avf2    ?c1 owl:allValuesFrom ?y, ?c1 owl:onProperty ?p1, ?c2 owl:allValuesFrom ?y, ?c2 owl:onProperty ?p2, ?p1 rdfs:subPropertyOf ?p2 -> ?c2 rdfs:subClassOf ?c1
scm-int    ?c owl:intersectionOf ?l, MEM ?l ?i ?ci -> ?c rdfs:subClassOf ?ci
scm-uni    ?c owl:unionOf ?l, MEM ?l ?i ?ci -> ?ci rdfs:subClassOf ?c
""")

RDFS_RULES = parse("""
rdf1    ?s ?p ?o -> ?p a rdf:Property
rdfs2    ?p rdfs:domain ?c, ?x ?p ?y -> ?x a ?c
rdfs3    ?p rdfs:range ?c, ?x ?p ?y -> ?y a ?c
rdfs4a    ?s ?p ?o -> ?s a rdfs:Resource
rdfs4b    ?s ?p ?o -> ?o a rdfs:Resource
rdfs5    ?p rdfs:subPropertyOf ?q, ?q rdfs:subPropertyOf ?r -> ?p rdfs:subPropertyOf ?r
rdfs6    ?p a rdf:Property -> ?p rdfs:subPropertyOf ?p
rdfs7    ?p rdfs:subPropertyOf ?q, ?x ?p ?y -> ?x ?q ?y
rdfs8    ?c a rdfs:Class -> ?c rdfs:subClassOf rdfs:Resource
rdfs9    ?c rdfs:subClassOf ?d, ?x a ?c -> ?x a ?d
rdfs10    ?c a rdfs:Class -> ?c rdfs:subClassOf ?c
rdfs11    ?c rdfs:subClassOf ?d, ?d rdfs:subClassOf ?e -> ?c rdfs:subClassOf ?e
rdfs12    ?p a rdfs:ContainerMembershipProperty -> ?p rdfs:subPropertyOf rdfs:member
rdfs13    ?c a rdfs:Datatype -> ?c rdfs:subClassOf rdfs:Literal
""")

SELF_RULES = parse("""
hasSelf1    ?z owl:hasSelf ?v, ?z owl:onProperty ?p, ?y a ?z -> ?y ?p ?y
hasSelf2    ?z owl:hasSelf ?v, ?z owl:onProperty ?p, ?y ?p ?y -> ?y a ?z
""")

BINDING = [(OWL.Thing, OWL.equivalentClass, RDFS.Resource), (RDFS.Class, OWL.equivalentClass, OWL.Class),
           (OWL.DataRange, OWL.equivalentClass, RDFS.Datatype)]
SELF_AXIOMS = [(OWL.hasSelf, RDF.type, RDF.Property), (OWL.hasSelf, RDFS.domain, RDF.Property)]

# reflexive conclusions that are exempt from completeness
REFLEXIVE = (RDFS.subClassOf, RDFS.subPropertyOf, OWL.equivalentClass, OWL.equivalentProperty)

# ----- datatypes --------------------------------------------------------------------------------------------------
# derivation of the XML Schema types (XML Schema Part 2): type -> base
_DERIVED = """integer decimal, nonPositiveInteger integer, negativeInteger nonPositiveInteger, long integer, int long, short int,
byte short, nonNegativeInteger integer, positiveInteger nonNegativeInteger, unsignedLong nonNegativeInteger,
unsignedInt unsignedLong, unsignedShort unsignedInt, unsignedByte unsignedShort, normalizedString string, token normalizedString,
language token, NMTOKEN token, Name token, NCName Name, dateTimeStamp dateTime"""
BASE = {XSD[a]: XSD[b] for a, b in (p.split() for p in _DERIVED.replace("\n", " ").split(","))}


def containing(dt):
    out = []
    while dt in BASE:
        dt = BASE[dt]
        out.append(dt)
    return out


SUPPORTED = [XSD[n] for n in """integer decimal nonNegativeInteger nonPositiveInteger negativeInteger positiveInteger long int short byte
unsignedLong unsignedInt unsignedShort unsignedByte float double string normalizedString token language Name NCName NMTOKEN boolean
hexBinary base64Binary anyURI dateTimeStamp dateTime time date""".split()] + \
    [RDFS.Literal, URIRef(str(RDF) + "XMLLiteral"), URIRef(str(RDF) + "HTML"), URIRef(str(RDF) + "langString"), URIRef(str(RDF) + "PlainLiteral")]
RDFS_SUPPORTED = SUPPORTED[:-1] + [XSD[n] for n in "gYearMonth gMonthDay gYear gDay gMonth".split()]
HIERARCHY = [(dt, c) for dt in BASE for c in containing(dt)]
ANNOTATION = [RDFS.label, RDFS.comment, RDFS.seeAlso, RDFS.isDefinedBy, OWL.deprecated, OWL.versionInfo, OWL.priorVersion,
              OWL.backwardCompatibleWith, OWL.incompatibleWith]

# integer ranges (inclusive; None: unbounded)
INT_RANGE = {"long": (-2**63, 2**63 - 1), "int": (-2**31, 2**31 - 1), "short": (-2**15, 2**15 - 1), "byte": (-128, 127),
             "nonNegativeInteger": (0, None), "positiveInteger": (1, None), "nonPositiveInteger": (None, 0), "negativeInteger": (None, -1),
             "unsignedLong": (0, 2**64 - 1), "unsignedInt": (0, 2**32 - 1), "unsignedShort": (0, 2**16 - 1), "unsignedByte": (0, 255)}


# ----- reference engine -----------------------------------------------------------------------------------------------
class Ref:
    """naive reference evaluation of a rule set over a set of triples"""
    def __init__(self, triples, typable=None):
        self.typable = typable or (lambda v, t: True)
        self.set = set()
        self.bysp, self.bypo, self.byp, self.bys, self.byo = {}, {}, {}, {}, {}
        for t in triples:
            self.add(t)

    def add(self, t):
        if t in self.set:
            return False
        self.set.add(t)
        s, p, o = t
        self.byp.setdefault(p, []).append(t)
        self.bys.setdefault(s, []).append(t)
        self.byo.setdefault(o, []).append(t)
        self.bysp.setdefault((s, p), []).append(t)
        self.bypo.setdefault((p, o), []).append(t)
        return True

    def lookup(self, s, p, o):
        if s is not None and p is not None:
            c = self.bysp.get((s, p), ())
        elif p is not None and o is not None:
            c = self.bypo.get((p, o), ())
        elif s is not None:
            c = self.bys.get(s, ())
        elif o is not None:
            c = self.byo.get(o, ())
        elif p is not None:
            c = self.byp.get(p, ())
        else:
            c = list(self.set)
        return [t for t in list(c) if (s is None or t[0] == s) and (p is None or t[1] == p) and (o is None or t[2] == o)]

    def items(self, l):
        out, seen = [], set()
        while l is not None and l != RDF.nil and l not in seen:
            seen.add(l)
            f = self.bysp.get((l, RDF.first), ())
            if f:
                out.append(f[0][2])
            r = self.bysp.get((l, RDF.rest), ())
            l = r[0][2] if r else None
        return out

    def solve(self, rule, prem=None, env=None):
        prem = list(rule.prem) if prem is None else prem
        env = env or {}
        if not prem:
            yield env
            return
        # choose the most bound atom that can be evaluated
        best, bk = None, None
        for k, a in enumerate(prem):
            unbound = sum(1 for x in a[1:] if isvar(x) and x not in env)
            if a[0] == "T":
                cost = unbound
            elif a[0] == "MEM":
                cost = 0.5 if a[1] in env else 9
            elif a[0] == "PATH":
                cost = 2 if a[1] in env else 9
            elif a[0] == "ALLTYPE":
                cost = 2 if a[1] in env else 9
            elif a[0] == "KEYS":
                cost = 0.1 if unbound == 0 else 9
            else:
                cost = -1 if unbound == 0 else 9
            if best is None or cost < bk:
                best, bk = k, cost
        a = prem[best]
        rest = prem[:best] + prem[best + 1:]
        g = lambda x: env.get(x) if isvar(x) else x
        if a[0] == "T":
            for t in self.lookup(*[g(x) for x in a[1:]]):
                e = dict(env)
                ok = True
                for x, v in zip(a[1:], t):
                    if isvar(x):
                        if e.setdefault(x, v) != v:
                            ok = False
                            break
                if ok:
                    yield from self.solve(rule, rest, e)
        elif a[0] == "MEM":
            for i, x in enumerate(self.items(g(a[1]))):
                e = dict(env)
                if e.setdefault(a[2], i) == i and e.setdefault(a[3], x) == x:
                    yield from self.solve(rule, rest, e)
        elif a[0] == "LT":
            if g(a[1]) < g(a[2]): yield from self.solve(rule, rest, env)
        elif a[0] == "NEQ":
            if g(a[1]) != g(a[2]): yield from self.solve(rule, rest, env)
        elif a[0] == "NONEMPTY":
            if self.items(g(a[1])): yield from self.solve(rule, rest, env)
        elif a[0] == "TYPABLE":
            if self.typable(g(a[1]), g(a[2])): yield from self.solve(rule, rest, env)
        elif a[0] == "VAL":
            x = g(a[1])
            if isinstance(x, Literal) and safe_eq(x.value, a[2]): yield from self.solve(rule, rest, env)
        elif a[0] == "ALLTYPE":
            items = self.items(g(a[1]))
            if not items:
                return          # always used with NONEMPTY
            for t in self.lookup(g(a[2]), RDF.type, items[0]):
                if all((t[0], RDF.type, c) in self.set for c in items[1:]):
                    e = dict(env)
                    e[a[2]] = t[0]
                    yield from self.solve(rule, rest, e)
        elif a[0] == "PATH":
            items = self.items(g(a[1]))
            if not items:
                return
            for t in self.lookup(g(a[2]), items[0], None):
                front = {t[2]}
                for p in items[1:]:
                    front = {u[2] for y in front for u in self.lookup(y, p, None)}
                for z in front:
                    e = dict(env)
                    e[a[2]] = t[0]
                    if e.setdefault(a[3], z) == z:
                        yield from self.solve(rule, rest, e)
        elif a[0] == "KEYS":
            items = self.items(g(a[1]))
            x, y = g(a[2]), g(a[3])
            if items and all({t[2] for t in self.lookup(x, p, None)} & {t[2] for t in self.lookup(y, p, None)} for p in items):
                yield from self.solve(rule, rest, env)
        else:
            raise ValueError(a)

    def missing(self, rules):
        """(rule, binding, conclusion) with the premises in the set and the conclusion not"""
        out = []
        for r in rules:
            if r.concl is None:
                continue
            for e in self.solve(r):
                c = tuple(e.get(x) if isvar(x) else x for x in r.concl)
                if c not in self.set:
                    out.append((r, e, c))
        return out

    def violations(self, rules):
        for r in rules:
            if r.concl is None:
                for e in self.solve(r):
                    yield r, e

    def close(self, rules, limit=20000):
        rules = [r for r in rules if r.concl is not None]
        while True:
            new = [c for _, _, c in self.missing(rules)]
            n = 0
            for c in new:
                if not isinstance(c[1], Literal) and self.add(c):
                    n += 1
            if not n or len(self.set) > limit:
                return self


def safe_eq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False
