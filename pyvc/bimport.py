"""Concrete search for C19: import structures in a scratch directory, with cycles, diamonds and self imports."""
import os
import shutil
import tempfile
from pathlib import Path
from . import load
from .concrete import Finding, limited, Timeout
from rdflib import Graph, URIRef, BNode, Literal
from rdflib.namespace import RDF, OWL
import owlrl

EX = "http://example.org/"
KINDS = {"ttl": "turtle", "n3": "turtle", "rdf": "xml", "owl": "xml", "jsonld": "json-ld", "json": "json-ld"}
WORDS = ["a", "b", "ont", "doc", "x.ttl", "long-name", "part"]


def gen(rng):
    fmt = rng.choice(["auto", "turtle", "xml", "json"])
    exts = list(KINDS) if fmt == "auto" else ["ttl", "rdf"] if fmt != "json" else ["jsonld"]
    docs = []
    for k in range(rng.randint(1, 5)):
        sub = rng.choice(["", "", "d1", "d2"])
        docs.append({"name": os.path.join(sub, "%s%s.%s" % (rng.choice(WORDS), rng.choice(["", k]), rng.choice(exts))),
                     "imports": [[rng.randrange(6), rng.random() < 0.3] for _ in range(rng.choice([0, 1, 1, 2, 3]))], "blank": rng.random() < 0.3, "meta": rng.random() < 0.3})
    return {"fmt": fmt, "docs": docs, "root": [[rng.randrange(6), rng.random() < 0.3] for _ in range(rng.choice([1, 1, 2, 3]))], "meta": rng.random() < 0.5}


def fixed():
    d = lambda n, *i: {"name": n, "imports": [list(x) for x in i], "blank": False, "meta": False}
    U, L = False, True
    yield {"fmt": "auto", "docs": [d("a.ttl", (0, U))], "root": [[0, U]], "meta": True}
    yield {"fmt": "auto", "docs": [d("a.ttl", (0, L))], "root": [[0, L]], "meta": True}
    yield {"fmt": "turtle", "docs": [d("a.ttl", (1, U)), d("b.ttl", (0, U))], "root": [[0, U]], "meta": True}
    yield {"fmt": "turtle", "docs": [d("a.ttl", (1, U), (2, L)), d("b.ttl", (3, U)), d("c.ttl", (3, L)), d("e.ttl", (0, U))], "root": [[0, U]], "meta": False}
    yield {"fmt": "auto", "docs": [d("d1/a.ttl", (1, U)), d("d2/a.ttl", (2, U)), d("d1/b.rdf", (3, U)), d("b.rdf", (0, L))], "root": [[0, U]], "meta": False}
    yield {"fmt": "turtle", "docs": [d("x%d.ttl" % k, (k + 1, U)) for k in range(30)] + [d("x30.ttl")], "root": [[0, U]], "meta": False}
    yield {"fmt": "auto", "docs": [d("a.ttl")], "root": [], "meta": True}


def content(case, dirname, k, imports, meta, blank=False):
    """(ground statements, import statements, one blank statement or none) of document k"""
    docs = case["docs"]
    me = URIRef(EX + "doc%s" % k)
    ground = [(me, RDF.type, OWL.Ontology), (me, URIRef(EX + "p"), Literal("of %s" % k)), (URIRef(EX + "shared"), URIRef(EX + "q"), me)]
    if meta: ground += [(OWL.imports, RDF.type, OWL.OntologyProperty), (me, OWL.priorVersion, URIRef(EX + "old")), (me, URIRef(EX + "uses"), OWL.imports)]
    imps = []
    for t, lit in imports:
        p = os.path.join(dirname, docs[t % len(docs)]["name"])
        imps.append((me, OWL.imports, Literal(p) if lit else URIRef(Path(p).as_uri())))
    if meta:
        ground += [(me, URIRef(EX + "sees"), o) for _, _, o in imps]
        ground += [(URIRef(EX + "other"), OWL.priorVersion, o) for _, _, o in imps]
    if len(imps) > 1: ground.append((imps[0][2] if isinstance(imps[0][2], URIRef) else me, URIRef(EX + "r"), Literal("x")))
    return ground, imps, [(BNode(), URIRef(EX + "b"), me)] if blank else []


def judge(case):
    d = tempfile.mkdtemp(prefix="imports")
    try:
        docs = case["docs"]
        for k, doc in enumerate(docs):
            g = Graph()
            a, b, c = content(case, d, k, doc["imports"], doc["meta"], doc["blank"])
            for t in a + b + c: g.add(t)
            p = os.path.join(d, doc["name"])
            if os.path.exists(p): return []
            os.makedirs(os.path.dirname(p), exist_ok=True)
            g.serialize(p, format=KINDS[doc["name"].rsplit(".", 1)[1]] if case["fmt"] == "auto" else {"turtle": "turtle", "xml": "xml", "json": "json-ld"}[case["fmt"]])
        g = Graph()
        a, b, c = content(case, d, "root", case["root"], case["meta"])
        for t in a + b: g.add(t)
        todo, seen, expected, blanks = [t % len(docs) for t, _ in case["root"]] if docs else [], set(), set(a), set()
        while todo:
            k = todo.pop()
            if k in seen: continue
            seen.add(k)
            x, y, z = content(case, d, k, docs[k]["imports"], docs[k]["meta"], docs[k]["blank"])
            expected |= set(x)
            blanks |= {t[2] for t in z}
            todo += [t % len(docs) for t, _ in docs[k]["imports"]]
        try:
            limited(10, owlrl.interpret_owl_imports, case["fmt"], g)
        except Timeout:
            return [Finding("imports", "reading the imports does not end")]
        except Exception as e:
            return [Finding("imports", "reading the imports fails: %r" % e)]
        out = []
        if list(g.triples((None, OWL.imports, None))): out.append(Finding("imports", "import statements are left: %s" % list(g.triples((None, OWL.imports, None)))[:2]))
        got = {t for t in g if not isinstance(t[0], BNode) and t[1] != OWL.imports}
        if expected - got: out.append(Finding("imports", "statements are missing: %s" % sorted(expected - got)[:3]))
        if got - expected: out.append(Finding("imports", "statements appear that no document has: %s" % sorted(got - expected)[:3]))
        if {t[2] for t in g if isinstance(t[0], BNode)} != blanks: out.append(Finding("imports", "blank statements of other documents than the imported ones"))
        return out
    finally:
        shutil.rmtree(d)
