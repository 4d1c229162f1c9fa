"""Concrete search for C21: expansions of graphs with odd terms in every position."""
import random
from . import load, concrete as C, spec
from .concrete import enc, Finding
from rdflib import URIRef, BNode, Literal
from rdflib.namespace import RDF, RDFS, OWL, XSD

EX = "http://example.org/"
RDFN = str(RDF)
P = C.VOCAB_P + [OWL.onDatatype, OWL.withRestrictions, OWL.hasSelf, OWL.hasKey, OWL.sourceIndividual, OWL.assertionProperty, OWL.targetIndividual, OWL.targetValue, OWL.minCardinality, OWL.cardinality,
                 OWL.disjointUnionOf, OWL.imports, XSD.minInclusive, XSD.maxExclusive, XSD.length, XSD.pattern, URIRef(RDFN + "langRange"), URIRef(RDFN + "_1"), URIRef(RDFN + "_12"), URIRef(RDFN + "_x"),
                 URIRef(RDFN + "_0"), URIRef(RDFN + "_"), URIRef(RDFN + "_-1"), URIRef(RDFN + "_1a"), URIRef(RDFN + "_²"), RDFS.label]
K = C.VOCAB_C + [OWL.NegativePropertyAssertion, OWL.Restriction, OWL.AnnotationProperty, OWL.InverseFunctionalProperty, XSD.integer, XSD.date, XSD.hexBinary, RDFS.Literal]
FORMS = ["", " ", "0", "1", "2", "-1", "007", "x", "NaN", "INF", "1.5", "1e400", "true", "abc", "2020-01-01", "2020-13-45", "25:00:00", "10:20:30", "T", "Z", "-", "+", "0F", "0", "%", "1" * 30, "é", "en", "[", "*",
         "2020-01-01T00:00:00Z", "2020-01-01T00:00:00.5+14:00", "--", "-0", "1/3", "//[", "\u0000"]
DTS = [None, None, XSD.string, XSD.nonNegativeInteger, XSD.nonNegativeInteger, XSD.integer] + sorted(spec.SUPPORTED) + [URIRef(EX + "dt"), OWL.rational, OWL.real, XSD.duration, XSD.gYear, RDFS.Literal, URIRef(EX + "D")]


def lit(rng):
    if rng.random() < .12: return Literal(rng.choice(FORMS[:20]), lang=rng.choice(["en", "de-DE", "x"]))
    return Literal(rng.choice(FORMS), datatype=rng.choice(DTS))


def term(rng, pool):
    r = rng.random()
    if r < .25: return lit(rng)
    if r < .35: return rng.choice([URIRef(""), URIRef("not a uri <>"), URIRef("urn:x"), BNode("b1"), BNode("b2"), RDF.nil, RDF.type, OWL.sameAs, OWL.Nothing])
    return rng.choice(pool)


def gen(rng):
    pool = [URIRef(EX + x) for x in "abCDpq"] + [BNode("n1"), BNode("n2")]
    ts = []
    for k in range(rng.choice([0, 1, 1, 2])):
        n = rng.choice([0, 1, 2, 3])
        nodes = [BNode("l%d_%d" % (k, i)) for i in range(n)] or [RDF.nil]
        for i in range(n):
            if rng.random() < .9: ts.append((nodes[i], RDF.first, term(rng, pool)))
            if rng.random() < .92: ts.append((nodes[i], RDF.rest, nodes[i + 1] if i + 1 < n else rng.choice([RDF.nil] * 6 + [lit(rng), BNode("loose"), URIRef(EX + "a")])))
        pool.append(nodes[0])
        pool.append(nodes[0])
    if rng.random() < .25:
        d, l, f = URIRef(EX + "D"), BNode("fl"), BNode("ff")
        ts += [(d, RDF.type, RDFS.Datatype), (d, OWL.onDatatype, rng.choice([XSD.integer, XSD.string, XSD.date, XSD.hexBinary, URIRef(RDFN + "PlainLiteral"), term(rng, pool)])), (d, OWL.withRestrictions, l),
               (l, RDF.first, f), (l, RDF.rest, RDF.nil), (f, rng.choice([XSD.minInclusive, XSD.maxExclusive, XSD.length, XSD.minLength, XSD.pattern, URIRef(RDFN + "langRange"), RDFS.label]), lit(rng))]
        if rng.random() < .4: ts.append((URIRef(EX + "a"), URIRef(EX + "p"), Literal(rng.choice(FORMS), datatype=ts[-5][1] if isinstance(ts[-5][1], URIRef) else None)))
    for _ in range(rng.randint(1, 9)):
        r = rng.random()
        if r < .2: ts.append((term(rng, pool), RDF.type, rng.choice(K)))
        elif r < .85: ts.append((term(rng, pool), rng.choice(P), term(rng, pool)))
        else: ts.append((term(rng, pool), rng.choice([URIRef(EX + "p"), BNode("bp"), lit(rng)]), term(rng, pool)))
    return {"class": rng.choice(list(C.CLASS)), "axioms": rng.random() < .3, "daxioms": rng.random() < .3, "rdfs": rng.random() < .5, "note": "", "triples": [[enc(x) for x in t] for t in dict.fromkeys(ts)]}


def fixed():
    """long lists"""
    n = 1300
    for head, prop in ((EX + "C", OWL.unionOf), (EX + "C", OWL.intersectionOf), (EX + "C", OWL.oneOf), (EX + "p", OWL.propertyChainAxiom), (EX + "C", OWL.hasKey)):
        ts = [(URIRef(head), prop, BNode("l0")), (URIRef(EX + "x"), RDF.type, URIRef(EX + "C")), (URIRef(EX + "x"), URIRef(EX + "m0"), URIRef(EX + "y"))]
        for i in range(n): ts += [(BNode("l%d" % i), RDF.first, URIRef(EX + "m%d" % i)), (BNode("l%d" % i), RDF.rest, BNode("l%d" % (i + 1)) if i + 1 < n else RDF.nil)]
        yield {"class": "OWLRL", "axioms": False, "daxioms": False, "rdfs": False, "note": "long list", "triples": [[enc(x) for x in t] for t in ts]}


def judge(case):
    c = C.Case.load(case)
    out, exc, g = C.expand(c, 120 if case["note"] else 25)
    if exc is None or exc == "timeout" or C.odd_lists(set(c.triples) | out): return []
    if "sNaN" in exc or any(isinstance(x, Literal) and "snan" in str(x).lower() for t in c.triples for x in t): return []      # the known finding
    return [Finding("exception", "%s raised %s" % (C.CLASS[c.cls].__name__, exc))]
