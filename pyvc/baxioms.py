"""Concrete search for C11: what the axiom phases add to a graph."""
import random
from . import concrete as C, load, spec, axioms
from .concrete import enc, dec, show, Finding
from rdflib import Graph, URIRef, BNode, Literal
from rdflib.namespace import RDF, RDFS, OWL, XSD
import owlrl

EX = "http://example.org/"
KEYS = ["OWLRL", "RDFS", "BOTH", "EXT", "TRIM"]
NUMS = ["1", "2", "3", "5", "9", "10", "11", "100", "130", "1001", "01", "0", "x", "", "1x", "12", "-1", "+3", "²", "2 "]


def gen(rng):
    ts = []
    for _ in range(rng.randint(0, 6)):
        r = rng.random()
        p = URIRef(str(RDF) + "_" + rng.choice(NUMS)) if r < .6 else URIRef(EX + rng.choice(["p", "rdf-syntax-ns#_4"]))
        s = URIRef(str(RDF) + "_" + rng.choice(NUMS)) if r > .9 else URIRef(EX + "s")
        o = Literal("1", datatype=rng.choice([None, XSD.integer, XSD.byte, URIRef(EX + "dt")])) if rng.random() < .4 else (URIRef(str(RDF) + "_7") if rng.random() < .2 else URIRef(EX + "o"))
        ts.append((s, p, o))
    return {"class": rng.choice(KEYS), "axioms": rng.random() < .7, "daxioms": rng.random() < .4, "rdfs": rng.random() < .5, "triples": [[enc(x) for x in t] for t in ts]}


def index(p):
    b = str(RDF) + "_"
    s = str(p)[len(b):]
    return int(s) if str(p).startswith(b) and s.isascii() and s.isdigit() and not s.startswith("0") and isinstance(p, URIRef) else 0


def expected(case, ts):
    key = case["class"]
    rd = key in ("RDFS", "BOTH") or (key in ("EXT", "TRIM") and case["rdfs"])
    out = set()
    if case["axioms"]:
        if rd:
            out |= set(axioms.RDFS)
            for i in range(1, max([index(p) for s, p, o in ts] + [0]) + 1):
                c = URIRef(str(RDF) + "_%d" % i)
                out |= {(c, RDF.type, RDF.Property), (c, RDFS.domain, RDFS.Resource), (c, RDFS.range, RDFS.Resource), (c, RDF.type, RDFS.ContainerMembershipProperty)}
        if key != "RDFS": out |= set(axioms.OWL)
        if key in ("EXT", "TRIM"): out |= set(spec.SELF_AXIOMS)
    if case["daxioms"]:
        g = set(ts) | out
        if rd:
            out |= set(axioms.RDFS_D) | {(o, RDF.type, o.datatype) for s, p, o in g if isinstance(o, Literal) and o.datatype is not None}
        if key != "RDFS": out |= set(axioms.OWL_D)
    return out


def judge(case):
    ts = [tuple(dec(x) for x in t) for t in case["triples"]]
    cls = C.CLASS[case["class"]]
    only = type("OnlyAxioms", (cls,), {"one_time_rules": lambda self: None, "rules": lambda self, t, n: None, "post_process": lambda self: None})
    g = Graph()
    for t in ts: g.add(t)
    try:
        only(g, case["axioms"], case["daxioms"], rdfs=case["rdfs"]).closure()
    except Exception as e:
        return []
    want = expected(case, ts) | set(ts)
    got = set(g)
    fs = []
    for t in sorted(want - got, key=str):
        fs.append(Finding("axiom", "requested axiom missing: %s" % show(t)))
        break
    for t in sorted(got - want, key=str):
        fs.append(Finding("axiom", "added by the axiom phases without being requested or an axiom: %s" % show(t)))
        break
    return fs
