"""Concrete search for C12: datatype typing, hierarchy and ill-typed literals in OWL 2 RL based expansions."""
import random
from . import concrete as C, load, spec
from .concrete import enc, dec, show, Finding, limited, Timeout
from rdflib import Graph, URIRef, BNode, Literal
from rdflib.namespace import RDF, RDFS, OWL, XSD
import owlrl

EX = "http://example.org/"
KEYS = ["OWLRL", "BOTH", "EXT", "TRIM"]
LEX = ["5", "-5", "0", "300", "-300", "70000", "x", "", "true", "1.5", "2020-01-01", "2020-01-01T00:00:00", "2020-01-01T00:00:00Z", "12:00:00", "12:00:00Z", "a b", "0F", "F", "a:b", "99999999999999999999", "1e3", "INF", "5/3", "QUJD", "http://a/b", "en"]


def gen(rng):
    ts = []
    lits = [Literal(rng.choice(LEX), datatype=rng.choice(spec.SUPPORTED + [XSD.gYear, URIRef(EX + "dt"), XSD.duration])) for _ in range(rng.randint(0, 3))]
    terms = [URIRef(EX + "x%d" % k) for k in range(4)] + [BNode("b0")]
    for l in lits:
        if rng.random() < .9: ts.append((rng.choice(terms), URIRef(EX + "p"), l))
    mode = rng.random()
    if mode < .75:
        for _ in range(rng.randint(0, 3)):
            ts.append((rng.choice(terms), RDF.type, rng.choice([d for d, c in spec.HIERARCHY] + spec.SUPPORTED)))
        for _ in range(rng.randint(0, 3)):
            ts.append((rng.choice(terms), OWL.sameAs, rng.choice(terms + lits)))
    rng.shuffle(ts)
    return {"class": rng.choice(KEYS), "rdfs": rng.random() < .5, "triples": [[enc(x) for x in t] for t in ts]}


def expected(ts):
    """supported types of each term: by its literal, explicit statements and sameAs"""
    parent = {}

    def find(x):
        while parent.get(x, x) != x: x = parent[x]
        return x
    for s, p, o in ts:
        if p == OWL.sameAs: parent[find(s)] = find(o)
    typed = {}
    objs = {o for s, p, o in ts if isinstance(o, Literal)}
    for o in objs:
        if o.datatype in spec.SUPPORTED: typed.setdefault(find(o), set()).add(o.datatype)
    for s, p, o in ts:
        if p == RDF.type and o in spec.SUPPORTED: typed.setdefault(find(s), set()).add(o)
    out = set()
    terms = {x for t in ts for x in (t[0], t[2])}
    for x in terms:
        for d in typed.get(find(x), ()):
            for c in [d] + spec.containing(d): out.add((x, RDF.type, c))
    return out


def judge(case):
    ts = [tuple(dec(x) for x in t) for t in case["triples"]]
    cls = C.CLASS[case["class"]]
    g = Graph()
    for t in ts: g.add(t)
    try:
        limited(25, lambda: owlrl.DeductiveClosure(cls, rdfs_closure=case["rdfs"]).expand(g))
    except Timeout:
        return []
    except Exception:
        return []                                     # failures belong to C21
    fs = []
    want = expected(ts)
    if case["class"] != "TRIM":
        want |= {(d, RDF.type, RDFS.Datatype) for d in spec.SUPPORTED}
    have = set(g)
    for t in sorted(want - have, key=str):
        fs.append(Finding("untyped", "missing: %s" % show(t)))
    terms = {x for t in ts for x in (t[0], t[2]) if x not in spec.SUPPORTED}
    # (types that are classes of the RDFS rules too are left out)
    for t in sorted((t for t in have if t[1] == RDF.type and t[0] in terms and t[2] in spec.SUPPORTED and t[2] != RDFS.Literal), key=str):
        if t not in want and t not in ts:
            fs.append(Finding("overtyped", "not entailed: %s" % show(t)))
    bad = [o for s, p, o in ts if isinstance(o, Literal) and C.ill_typed(o)]
    err = C.error_nodes(g)
    if bad and not err:
        fs.append(Finding("unreported", "no error for the ill-typed literal %s" % bad[0].n3()))
    if err and not bad and not any(p in (RDF.type, OWL.sameAs) for s, p, o in ts):
        fs.append(Finding("spurious", "an error is reported for %s" % [o.n3() for s, p, o in ts if isinstance(o, Literal)]))
    return fs
