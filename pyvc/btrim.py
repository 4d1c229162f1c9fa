"""Concrete search for C16: the trimming closure's output against the extension closure's."""
import random
from . import concrete as C, load, spec, axioms, bframe
from .concrete import enc, dec, show, Finding, limited, Timeout
from rdflib import Graph, Dataset, URIRef, BNode, Literal
from rdflib.namespace import RDF, RDFS, OWL, XSD
import owlrl

EX = "http://example.org/"


def gen(rng):
    ts = bframe.triples(rng, rng.randint(0, 5), 0.1)
    a = [URIRef(EX + x) for x in "abc"] + [OWL.Thing, OWL.Nothing, RDFS.Resource, OWL.Class, RDFS.Class, RDFS.Datatype, OWL.DataRange, XSD.integer, XSD.string, XSD.date]
    ps = [OWL.sameAs, OWL.equivalentClass, OWL.equivalentProperty, RDFS.subClassOf, RDFS.subPropertyOf, RDF.type, OWL.disjointWith, OWL.differentFrom]
    for _ in range(rng.randint(0, 4)):
        s = rng.choice(a)
        ts.append((s, rng.choice(ps), s if rng.random() < .3 else rng.choice(a)))
    if rng.random() < .5:
        ts.append((URIRef(EX + "a"), URIRef(EX + "p"), Literal(rng.choice(["1", "x"]), datatype=rng.choice(spec.SUPPORTED))))
    if rng.random() < .2:
        ts.append((rng.choice(spec.ANNOTATION), RDF.type, OWL.AnnotationProperty))
    if rng.random() < .3:
        # a restricted datatype
        d, b = URIRef(EX + "small"), BNode("f")
        ts += [(d, RDF.type, RDFS.Datatype), (d, OWL.onDatatype, XSD.integer), (d, OWL.withRestrictions, b), (b, RDF.first, BNode("g")), (b, RDF.rest, RDF.nil),
               (BNode("g"), XSD.maxInclusive, Literal(5)), (URIRef(EX + "a"), URIRef(EX + "p"), Literal(rng.choice([3, 8])))]
        if rng.random() < .5: ts.append((d, OWL.disjointWith, rng.choice(a)))
    return {"axioms": rng.random() < .2, "rdfs": rng.random() < .5, "dest": rng.choice(["none", "none", "dataset", "name"]), "triples": [[enc(x) for x in t] for t in dict.fromkeys(ts)]}


def run(cls, case, ts):
    named = URIRef(EX + "named")
    if case["dest"] == "none":
        g = Graph()
        for t in ts: g.add(t)
        dest = None
    else:
        g = Dataset()
        for k, t in enumerate(ts): (g.graph(named) if k % 2 else g.default_context).add(t)
        dest = named if case["dest"] == "name" else None
    limited(40, lambda: owlrl.DeductiveClosure(cls, rdfs_closure=case["rdfs"], axiomatic_triples=case["axioms"]).expand(g, destination=dest))
    return g


def norm(qs, inp):
    known = {x for t in inp for x in t}
    f = lambda x: "_" if isinstance(x, BNode) and x not in known else x
    return {(c, tuple(f(x) for x in t)) for c, t in qs}


def judge(case):
    ts = [tuple(dec(x) for x in t) for t in case["triples"]]
    try:
        ge = run(C.CLASS["EXT"], case, ts)
        gt = run(C.CLASS["TRIM"], case, ts)
    except Timeout:
        return []
    except Exception:
        return []
    target = {"none": "", "dataset": "urn:x-rdflib:default", "name": EX + "named"}[case["dest"]]
    e, t = norm(bframe.quads(ge), ts), norm(bframe.quads(gt), ts)
    allE = {x for c, x in e}
    rds = {s for s, p, o in ts if p == OWL.onDatatype}
    typed = {o for s, p, o in allE if p == RDF.type}
    idle = lambda d: (d in spec.SUPPORTED or d == C.RATIONAL) and d not in typed
    fs = []

    def doc(x):
        s, p, o = x
        return (s == o and p in (OWL.sameAs, OWL.equivalentClass, RDFS.subClassOf, RDFS.subPropertyOf)) or (p == RDFS.subClassOf and o in (OWL.Thing, RDFS.Resource)) or \
            (p == RDF.type and o == RDFS.Resource) or (s == OWL.Nothing and p == RDFS.subClassOf) or (p == RDF.type and o in (RDFS.Datatype, OWL.DataRange) and idle(s)) or \
            (p == OWL.disjointWith and (idle(s) or idle(o))) or (p == RDF.type and o == OWL.AnnotationProperty and s in spec.ANNOTATION) or x in axioms.TRIMMED
    for c, x in sorted(e | t, key=str):
        s, p, o = x
        if s in rds or o in rds:
            if p == OWL.disjointWith or p == RDF.type and o in (RDFS.Datatype, OWL.DataRange): continue
        gone = c == target and doc(x)
        if (c, x) in t and (c, x) not in e: fs.append(Finding("added", "the trimming closure adds %s" % show(x) if "_" not in x else "adds %s" % (x,)))
        elif gone and (c, x) in t: fs.append(Finding("kept", "not trimmed: %s" % (x,)))
        elif not gone and (c, x) not in t: fs.append(Finding("trimmed", "removed although not documented: %s" % (x,)))
    return fs
