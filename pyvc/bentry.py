"""Concrete search for C20: conversions of files in a scratch directory with every kind of option, against the same steps
done with RDFLib and DeductiveClosure directly."""
import io
import itertools
import json
import os
import shutil
import sys
import tempfile
import types
from . import load
from .concrete import Finding, limited, Timeout
from .pentry import SPELLINGS, YES
from .pglobal import TABLES
from rdflib import Graph, URIRef, BNode, Literal
from rdflib.namespace import RDF, RDFS, OWL, XSD
import owlrl

EX = "http://example.org/"
EXT = {"ttl": "turtle", "n3": "turtle", "rdf": "xml", "owl": "xml", "xml": "xml", "txt": "xml", "json": "json-ld", "jsonld": "json-ld", "": "xml", "TTL": "xml"}
IN = {"auto": None, "turtle": "turtle", "xml": "xml", "rdfxml": "xml", "json": "json-ld"}
FLAGS = ["owlClosure", "rdfsClosure", "owlExtras", "axioms", "daxioms", "trimming"]
CLASSES = {"OWLRL_Semantics": owlrl.OWLRL_Semantics, "RDFS_Semantics": owlrl.RDFS_Semantics, "OWLRL_Extension": owlrl.OWLRL_Extension}


def documented(o, r, e, t):
    if o: return (owlrl.OWLRL_Extension_Trimming if t else owlrl.OWLRL_Extension) if e else owlrl.RDFS_OWLRL_Semantics if r else owlrl.OWLRL_Semantics
    return owlrl.RDFS_Semantics if r else None


def base(**kw):
    d = {"sources": [["a", "ttl", "plain"]], "text": None, "iformat": "auto", "format": "turtle", "options": {f: False for f in FLAGS}, "source": "missing", "class": None, "stdin": False}
    d.update({k: v for k, v in kw.items() if k not in FLAGS})
    d["options"].update({k: v for k, v in kw.items() if k in FLAGS})
    return d


def fixed():
    yield {"select": True}
    for v in SPELLINGS: yield base(owlClosure=v, rdfsClosure=False)
    for f in FLAGS[1:]: 
        for v in SPELLINGS: yield base(owlClosure=f in ("owlExtras", "trimming"), **({"owlExtras": True} if f == "trimming" else {}), **({"rdfsClosure": True} if f in ("axioms", "daxioms") else {}), **{f: v})
    for k in IN: yield base(iformat=k, sources=[["a", "dat" if k != "auto" else "rdf", "plain"], ["b", "dat" if k != "auto" else "ttl", "types"]])
    for k in ("turtle", "xml", "rdfxml", "json"):
        yield base(format=k, owlClosure=True)
        yield base(format=k)
    for e in EXT: yield base(sources=[["a", e, "plain"]])
    yield base(sources=[], text="<%sa> <%sp> <%sb> ." % (EX, EX, EX), rdfsClosure="yes")
    yield base(text="<%sa> <%sp> <%sb> ." % (EX, EX, EX))
    yield base(text="   ")
    yield base(stdin=True, sources=[])
    yield base(stdin=True, iformat="xml")
    yield base(source="given")
    yield base(source="none")
    yield base(iformat=None)
    for o in (True, False): yield base(sources=[["a", "ttl", "imports"]], owlClosure=o, rdfsClosure=not o)
    yield base(sources=[["a", "ttl", "imports"]], owlClosure="no", rdfsClosure="yes")
    yield base(sources=[["a", "dat", "imports"]], iformat="turtle", owlClosure=True, imported="imported.rdf")
    yield base(sources=[["a", "ttl", "types"]], owlClosure=True, owlExtras=True, trimming="missing")
    for r, a, dx in itertools.product((True, False), repeat=3): yield base(sources=[["a", "ttl", "types"]], owlClosure=True, owlExtras=True, rdfsClosure=r, axioms=a, daxioms=dx)
    for c in CLASSES:
        for o in (True, False): yield base(**{"class": c}, owlClosure=o, sources=[["a", "ttl", "types"]])
    for o, r, e, t in itertools.product((True, False), repeat=4): yield base(owlClosure=o, rdfsClosure=r, owlExtras=e, trimming=t, sources=[["a", "ttl", "types"]])


def gen(rng):
    fmt = rng.choice(list(IN) + [None, "auto", "auto"])
    exts = list(EXT) if fmt in (None, "auto") else ["dat", "ttl", "rdf"]
    src = [[n, rng.choice(exts), rng.choice(["plain", "types", "imports", "literals"])] for n in "abc"[:rng.randint(0, 3)]]
    text = rng.choice([None, None, "", "<%sa> <%sp> <%st> ." % (EX, EX, EX), "@prefix e: <%s> .\ne:a a e:C . e:C <%s> e:D ." % (EX, RDFS.subClassOf)])
    if not src and not (text or "").strip(): src = [["a", exts[0], "types"]]
    if src and rng.random() < 0.2: src.append(src[0])
    return {"sources": src, "text": text, "iformat": fmt, "format": rng.choice(["turtle", "xml", "rdfxml", "json"]), "options": {f: rng.choice(SPELLINGS) if rng.random() < 0.95 or f != "trimming" else "missing" for f in FLAGS},
            "source": rng.choice(["missing", "missing", "none", "given"]), "class": rng.choice([None] * 4 + list(CLASSES)), "stdin": rng.random() < 0.1}


def content(kind, n, d):
    u = lambda x: URIRef(EX + x)
    ts = [(u("a" + n), u("p"), u("b" + n)), (u("p"), RDFS.range, u("C" + n))]
    if kind == "types": ts += [(u("a" + n), RDF.type, u("C" + n)), (u("C" + n), RDFS.subClassOf, u("D")), (u("p"), RDF.type, OWL.SymmetricProperty), (u("a" + n), OWL.sameAs, u("c" + n))]
    if kind == "literals": ts += [(u("a" + n), u("q"), Literal("5", datatype=XSD.byte)), (u("a" + n), u("q"), Literal("x")), (u("a" + n), OWL.sameAs, u("a" + n))]
    if kind == "imports": ts += [(u("doc"), OWL.imports, URIRef("file://" + os.path.join(d, IMPORTED)))]
    return ts


def write(path, ts, fmt):
    g = Graph()
    for t in ts: g.add(t)
    g.serialize(path, format=fmt)


def ground(g):
    s = set()
    for t in g: s.add(tuple("_" if isinstance(x, BNode) else x for x in t))
    return s


def direct(cls, g, on):
    """the closure class itself, with the improved conversions, and the tables restored"""
    kept = [(t, dict(t) if isinstance(t, dict) else list(t)) for t in TABLES.values()]
    try:
        owlrl.DatatypeHandling.use_Alt_lexical_conversions()
        cls(g, on["axioms"], on["daxioms"], rdfs=on["rdfsClosure"]).closure()
    finally:
        for t, old in kept:
            if isinstance(t, dict):
                t.clear()
                t.update(old)
            else: t[:] = old


def judge(case):
    if case.get("select"):
        return [Finding("entry", "return_closure_class%s is %s" % ((o, r, e, t), owlrl.return_closure_class(o, r, e, t))) for o, r, e, t in itertools.product((True, False), repeat=4)
                if owlrl.return_closure_class(o, r, e, t) is not documented(o, r, e, t)] + \
               [Finding("entry", "return_closure_class%s is %s" % ((o, r, e), owlrl.return_closure_class(o, r, e))) for o, r, e in itertools.product((True, False), repeat=3) if owlrl.return_closure_class(o, r, e) is not documented(o, r, e, False)]
    global IMPORTED
    IMPORTED = case.get("imported", "imported.ttl")
    d = tempfile.mkdtemp(prefix="entry")
    old = sys.stdin
    try:
        fmt = case["iformat"]
        given = IN[fmt] if fmt else None
        expected, names = Graph(), []
        for n, e, kind in case["sources"]:
            p = os.path.join(d, n + ("." + e if e else ""))
            f = given or EXT[e]
            ts = content(kind, n, d)
            if f != "turtle" and given is None and kind == "imports": ts = content("types", n, d)
            if given not in (None, "turtle") and kind == "imports": ts = content("types", n, d)
            if not os.path.exists(p): write(p, ts, f)
            names.append(p)
            for t in ts: expected.add(t)
        write(os.path.join(d, IMPORTED), content("types", "i", d), "turtle")
        if case["text"] is not None: expected.parse(data=case["text"], format="turtle")
        if case["stdin"]:
            g = Graph()
            for t in content("literals", "s", d): g.add(t), expected.add(t)
            sys.stdin = io.StringIO(g.serialize(format=given or "turtle"))
            names.append("-")
        opt = types.SimpleNamespace(sources=list(names), text=case["text"], format=case["format"], **{k: v for k, v in case["options"].items() if v != "missing"})
        if fmt is not None: opt.iformat = fmt
        if case["source"] == "none": opt.source = None
        if case["source"] == "given":
            opt.source = os.path.join(d, "extra.ttl")
            f = given or "turtle"
            write(opt.source, content("literals", "x", d), f)
            for t in content("literals", "x", d): expected.add(t)
        on = {"trimming": False, **case["options"]}
        on = {k: v is True or v in YES[1:] for k, v in on.items()}
        if on["owlClosure"] and next(expected.triples((None, OWL.imports, None)), None):
            expected.remove((None, OWL.imports, None))
            for t in content("types", "i", d): expected.add(t)
        cls = CLASSES[case["class"]] if case["class"] else documented(on["owlClosure"], on["rdfsClosure"], on["owlExtras"], on["trimming"])
        if cls is not None: limited(60, direct, cls, expected, on)
        out = case["format"]
        try:
            text = limited(60, owlrl.convert_graph, opt, *([CLASSES[case["class"]]] if case["class"] else []))
        except Timeout:
            return [Finding("entry", "the conversion does not end")]
        except Exception as e:
            return [Finding("entry", "the conversion fails: %r" % e)]
        try:
            want = expected.serialize(format={"turtle": "turtle", "json": "json-ld"}.get(out, "pretty-xml"))
        except Exception:
            return []
        rd = {"turtle": "turtle", "json": "json-ld"}.get(out, "xml")
        try:
            got = Graph().parse(data=text, format=rd)
        except Exception as e:
            return [Finding("entry", "the result is not %s: %r" % (out, e))]
        want = Graph().parse(data=want, format=rd)
        a, b = ground(got), ground(want)
        if a != b: return [Finding("entry", "the result differs: missing %s, unexpected %s" % (sorted(b - a, key=str)[:3], sorted(a - b, key=str)[:3]))]
        return []
    finally:
        sys.stdin = old
        shutil.rmtree(d)
