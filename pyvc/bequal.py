"""Concrete search for C18: literals of the same value exchanged before the RDFS rules."""
import random
from . import concrete as C, load
from .concrete import enc, dec, show, Finding
from rdflib import Graph, URIRef, Literal
from rdflib.namespace import RDF, RDFS, XSD
import owlrl

EX = "http://example.org/"
POOL = [("5", XSD.integer), ("05", XSD.integer), ("+5", XSD.int), ("5.0", XSD.decimal), ("5", XSD.byte), ("5", None), ("5", XSD.string), ("6", XSD.integer), ("true", XSD.boolean), ("1", XSD.boolean),
        ("1", XSD.integer), ("1", None), ("0", XSD.boolean), ("false", XSD.boolean), ("5.0", XSD.double), ("INF", XSD.double), ("NaN", XSD.double), ("2020-01-01T00:00:00Z", XSD.dateTime),
        ("2020-01-01T01:00:00+01:00", XSD.dateTime), ("x", URIRef(EX + "dt")), ("y", URIRef(EX + "dt")), ("x", XSD.integer), ("z", XSD.integer), ("0F", XSD.hexBinary), ("0f", XSD.hexBinary), ("5", URIRef(EX + "dt"))]


POOL += [("0000000005", XSD.integer), ("5.00000000", XSD.decimal), ("00005.0", XSD.decimal), ("5.0E0", XSD.double), ("0.5e1", XSD.float), ("+5", XSD.integer), ("5", XSD.long), ("5", XSD.unsignedByte),
         ("-0", XSD.integer), ("0", XSD.integer), ("0.0", XSD.decimal), ("-0.0", XSD.double), ("1.0", XSD.decimal), ("true", XSD.string), ("5 ", XSD.string), ("Dw==", XSD.base64Binary), ("2020-01-01T00:00:00.000000Z", XSD.dateTime),
         ("2020-01-01", XSD.date), ("00:00:00Z", XSD.time), ("01:00:00+01:00", XSD.time), ("100000000000000000000", XSD.integer), ("100000000000000000000.0", XSD.decimal), ("P1D", XSD.duration), ("PT24H", XSD.duration),
         ("", XSD.string), ("", None), ("http://example.org/5", XSD.anyURI), ("a" * 30, XSD.string), ("a" * 30, None)]


def lit(rng):
    if rng.random() < .1: return Literal("5", lang=rng.choice(["en", "de"]))
    x, d = rng.choice(POOL)
    return Literal(x, datatype=d)


def gen(rng):
    if rng.random() < .5: return narrow(rng)
    s = [URIRef(EX + x) for x in "abc"]
    p = [URIRef(EX + x) for x in "pq"]
    ts = [(rng.choice(s), rng.choice(p), lit(rng)) for _ in range(rng.randint(1, 5))] + [(rng.choice(s), rng.choice(p), rng.choice(s)) for _ in range(rng.randint(0, 2))]
    if rng.random() < .2: ts.append((lit(rng), rng.choice(p), rng.choice(s)))
    return {"triples": [[enc(x) for x in t] for t in dict.fromkeys(ts)]}


def narrow(rng):
    """few values in many forms"""
    x, d = rng.choice(POOL)
    alike = [(y, e) for y, e in POOL if same(Literal(x, datatype=d), Literal(y, datatype=e))]
    ts = [(URIRef(EX + rng.choice("abc")), URIRef(EX + rng.choice("pq")), Literal(y, datatype=e)) for y, e in rng.sample(alike, min(len(alike), rng.randint(2, 4)))]
    if rng.random() < .4: ts.append((URIRef(EX + "a"), URIRef(EX + "p"), lit(rng)))
    rng.shuffle(ts)
    return {"triples": [[enc(z) for z in t] for t in dict.fromkeys(ts)]}


def same(a, b):
    if a == b: return True
    return a.value is not None and b.value is not None and C.safe_eq(a.value, b.value)


def judge(case):
    ts = [tuple(dec(x) for x in t) for t in case["triples"]]
    seen = {}

    class Probe(owlrl.RDFSClosure.RDFS_Semantics):
        def rules(self, t, n):
            if "g" not in seen: seen["g"] = set(self.graph)
    g = Graph()
    for t in ts: g.add(t)
    try:
        Probe(g, False, False).closure()
    except Exception:
        return []
    have = seen.get("g", set(g))
    # values as RDFLib converts them in the stored terms
    objs = {o for s, p, o in g if isinstance(o, Literal) and (s, p, o) in set(ts)}
    want = set(ts) | {(s, p, l) for s, p, o in ts if isinstance(o, Literal) for l in objs if same(o, l)}
    fs = [Finding("missing", "not repeated: %s" % show(t)) for t in sorted(want - have, key=str)]
    fs += [Finding("unsound", "repeated with another value: %s" % show(t)) for t in sorted(have - want, key=str) if isinstance(t[2], Literal)]
    return fs
