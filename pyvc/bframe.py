"""Concrete search for C09 and C10: input kept, other graphs untouched, bad destinations refused, no generalized triples."""
import random
from . import concrete as C, load, spec
from .concrete import enc, dec, show, Finding, limited, Timeout
import rdflib
from rdflib import Graph, Dataset, URIRef, BNode, Literal
from rdflib.namespace import RDF, RDFS, OWL, XSD
import owlrl

EX = "http://example.org/"
KEYS = ["OWLRL", "RDFS", "BOTH", "EXT", "TRIM"]


def pool(rng):
    u = [URIRef(EX + x) for x in "abcdpqr"]
    b = [BNode("b%d" % k) for k in range(3)]
    l = [Literal("x"), Literal("5", datatype=XSD.integer), Literal("05", datatype=XSD.integer), Literal("z", lang="en")]
    return u, b, l


VOC = [RDFS.subPropertyOf, OWL.equivalentProperty, OWL.inverseOf, OWL.sameAs, RDFS.subClassOf, RDFS.domain, RDFS.range, OWL.propertyDisjointWith, RDF.first, OWL.onProperty]
TYPES = [OWL.SymmetricProperty, OWL.TransitiveProperty, OWL.FunctionalProperty, OWL.InverseFunctionalProperty, RDFS.Class, RDF.Property, OWL.Class, OWL.ObjectProperty]


def triples(rng, n, strange=0.4):
    u, b, l = pool(rng)
    out = []
    names = u + (b * 2 if rng.random() < .8 else [])
    for _ in range(n):
        r = rng.random()
        any_ = lambda k: rng.choice(names + (l if rng.random() < k else []))
        if r < .45:
            out.append((any_(.25), rng.choice(VOC), any_(.4)))
        elif r < .6:
            out.append((any_(.1), RDF.type, rng.choice(TYPES + u[:3])))
        elif r < .9 or strange == 0:
            out.append((any_(.05), rng.choice(u[3:]), any_(.4)))
        else:
            out.append((any_(.05), rng.choice(b + l[:2]), any_(.4)))
        if rng.random() < .1:
            x, p, c1, c2 = rng.choice(names), OWL.propertyChainAxiom, BNode("l1"), BNode("l2")
            out += [(x, p, c1), (c1, RDF.first, rng.choice(names)), (c1, RDF.rest, c2), (c2, RDF.first, rng.choice(names)), (c2, RDF.rest, RDF.nil)]
        if rng.random() < .1:
            r_ = BNode("r")
            out += [(r_, OWL.hasValue, any_(.4)), (r_, OWL.onProperty, rng.choice(names)), (any_(.1), RDF.type, r_)]
    return out


DEST = ["none", "none", "none", "dataset", "dataset", "name", "name-plain", "other", "other-dataset", "context"]


def gen(rng):
    return {"class": rng.choice(KEYS), "dest": rng.choice(DEST), "axioms": rng.random() < .2, "rdfs": rng.random() < .5,
            "default": [[enc(x) for x in t] for t in triples(rng, rng.randint(1, 7))],
            "named": [[enc(x) for x in t] for t in triples(rng, rng.randint(0, 4))]}


def quads(g):
    if isinstance(g, Dataset):
        return {(str(c.identifier), t) for c in g.contexts() for t in c}
    return {("", t) for t in g}


def judge(case):
    d = case["dest"]
    cls = C.CLASS[case["class"]]
    T = lambda ts: [tuple(dec(x) for x in t) for t in ts]
    named = URIRef(EX + "named")
    if d in ("dataset", "name", "context", "other-dataset"):
        g = Dataset()
        for t in T(case["default"]): g.default_context.add(t)
        ng = g.graph(named)
        for t in T(case["named"]): ng.add(t)
    else:
        g = Graph()
        for t in T(case["default"] + case["named"]): g.add(t)
    other = Graph()
    other.add((URIRef(EX + "o"), URIRef(EX + "o"), URIRef(EX + "o")))
    refused = d in ("name-plain", "other", "other-dataset")
    dest = {"none": None, "dataset": None, "name": str(named), "name-plain": EX + "x", "other": other, "other-dataset": other}.get(d)
    if d == "name": dest = named
    if d == "context": dest = g.graph(named)
    before = quads(g)
    o_before = set(other)
    exc = None
    try:
        limited(25, lambda: owlrl.DeductiveClosure(cls, rdfs_closure=case["rdfs"], axiomatic_triples=case["axioms"], datatype_axioms=case["axioms"]).expand(g, destination=dest))
    except Timeout:
        return [Finding("timeout", "the expansion did not end")]
    except ValueError as e:
        exc = "ValueError"
    except Exception as e:
        exc = "%s: %s" % (type(e).__name__, e)
    after = quads(g)
    fs = []
    if set(other) != o_before:
        fs.append(Finding("frame", "an unrelated graph was changed"))
    if refused:
        if exc != "ValueError":
            fs.append(Finding("refused", "destination %s was not refused (%s)" % (d, exc)))
        if after != before:
            fs.append(Finding("refused", "the graph was changed although the destination %s was refused" % d))
        return fs
    if exc is not None:
        return fs                                  # failures belong to C21
    target = {"none": "", "dataset": "urn:x-rdflib:default", "name": str(named), "context": str(named)}[d]
    owl = case["class"] != "RDFS"
    for c, t in after - before:
        if c != target:
            fs.append(Finding("frame", "%s: triple added to graph <%s> instead of <%s>: %s" % (d, c, target, show(t))))
            break
    if case["class"] != "TRIM":
        for c, t in sorted(before - after, key=str):
            if not isinstance(t[1], BNode) or not owl:
                fs.append(Finding("lost", "input triple removed from graph <%s>: %s" % (c, show(t))))
                break
    inp = {t for c, t in before}
    for c, t in sorted(after, key=str):
        if isinstance(t[1], Literal) and t not in inp:
            fs.append(Finding("generalized", "literal as predicate: %s" % show(t)))
        if owl and isinstance(t[1], BNode) and d in ("none", "dataset"):
            if d == "dataset" and c != target:
                continue                            # triples of other graphs of the data set stay
            fs.append(Finding("generalized", "blank node as predicate: %s" % show(t)))
    return fs
