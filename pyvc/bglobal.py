"""Concrete search for C17: sequences of expansions (some failing) against the process-wide state before, and a probe graph
expanded before and after them."""
import inspect
import sys
from . import concrete as C, load, spec
from .concrete import enc, dec, Finding, limited, Timeout
from .pglobal import ORIGINAL, TABLES
from rdflib import Graph, URIRef, BNode, Literal
from rdflib.namespace import RDF, RDFS, OWL, XSD
import rdflib.term
import owlrl

EX = "http://example.org/"
IMPORTED = {n: dict(t) if isinstance(t, dict) else list(t) for n, t in TABLES.items()}
LEX = ["5", "-5", "300", "x", "", "true", "1.5", "2020-01-01T00:00:00Z", "F", "5/3", "2/0", "1e3", "INF", "a b"]


class Boom(Exception): pass


def freeze(v, d=0):
    if d > 4: return None
    if isinstance(v, dict): return ("dict", tuple((freeze(k, d + 1), freeze(x, d + 1)) for k, x in list(v.items())))
    if isinstance(v, (list, tuple)): return (type(v).__name__, tuple(freeze(x, d + 1) for x in v))
    if isinstance(v, (set, frozenset)): return ("set", tuple(sorted(map(repr, v))))
    if isinstance(v, (str, int, float, bool, type(None))): return repr(v)
    return id(v)


def state():
    out = {}
    for mn, m in list(sys.modules.items()):
        if mn != "owlrl" and not mn.startswith("owlrl."): continue
        for n, v in list(vars(m).items()):
            if n.startswith("__"): continue
            if inspect.isclass(v) and v.__module__.startswith("owlrl"):
                for k, x in list(vars(v).items()):
                    if not k.startswith("__") and not inspect.isroutine(x): out["%s.%s" % (v.__name__, k)] = freeze(x)
                    if inspect.isfunction(x): out["%s.%s defaults" % (v.__name__, k)] = freeze((x.__defaults__, x.__kwdefaults__, dict(x.__dict__)))
            elif inspect.isfunction(v): out["%s.%s defaults" % (mn, n)] = freeze((v.__defaults__, v.__kwdefaults__, dict(v.__dict__) if v.__module__.startswith("owlrl") else None))
            elif isinstance(v, (dict, list, set, str, int, float, bool, type(None))): out["%s.%s" % (mn, n)] = freeze(v)
    out["rdflib"] = freeze(dict(rdflib.term._toPythonMapping))
    return out


def failing(base, where, exc):
    """the class `base`, failing at the place `where`"""
    def boom(*a, **k): raise exc("planned")
    if where == "constructor":
        def init(self, *a, **k):
            base.__init__(self, *a, **k)
            boom()
        return type(base.__name__ + "F", (base,), {"__init__": init})
    return type(base.__name__ + "F", (base,), {where: boom})


def triples(rng):
    ts, terms = [], [URIRef(EX + "x%d" % k) for k in range(3)]
    for _ in range(rng.randint(1, 4)):
        ts.append((rng.choice(terms), URIRef(EX + "p"), Literal(rng.choice(LEX), datatype=rng.choice(spec.SUPPORTED + [OWL.rational, None]))))
    if rng.random() < .5:
        # a restricted datatype
        d, r, l = URIRef(EX + "small%d" % rng.randint(0, 2)), BNode("r"), BNode("l")
        ts += [(d, RDF.type, RDFS.Datatype), (d, OWL.onDatatype, XSD.integer), (d, OWL.withRestrictions, l), (l, RDF.first, r), (l, RDF.rest, RDF.nil), (r, XSD.maxInclusive, Literal(str(rng.randint(0, 9)), datatype=XSD.integer))]
    if rng.random() < .3: ts.append((URIRef(EX + "p"), RDFS.range, rng.choice(spec.SUPPORTED)))
    if rng.random() < .2: ts.append((rng.choice(terms), OWL.sameAs, rng.choice(terms)))
    return [[enc(x) for x in t] for t in ts]


def gen(rng):
    steps = []
    for _ in range(rng.randint(1, 3)):
        steps.append({"class": rng.choice(["OWLRL", "RDFS", "BOTH", "EXT", "EXT", "TRIM"]), "rdfs": rng.random() < .5, "axioms": rng.random() < .3, "daxioms": rng.random() < .3, "improved": True, "triples": triples(rng),
                      "fail": rng.choice([None, None, "constructor", "pre_process", "one_time_rules", "rules", "post_process", "add_axioms", "flush_stored_triples"]), "exception": rng.choice(["Boom", "KeyboardInterrupt"])})
    return {"generic": rng.random() < .3, "steps": steps, "probe": {"class": rng.choice(["OWLRL", "BOTH", "EXT"]), "triples": triples(rng)}}


def load_graph(ts):
    g = Graph()
    for t in ts: g.add(tuple(dec(x) for x in t))
    return g


def result(probe):
    g = load_graph(probe["triples"])
    try:
        limited(25, lambda: owlrl.DeductiveClosure(C.CLASS[probe["class"]]).expand(g))
    except Timeout:
        return None
    except Exception as e:
        return type(e).__name__
    return frozenset(tuple("_" if isinstance(x, BNode) else repr(x) for x in t) for t in g), len(g)


def judge(case):
    out = []
    T = rdflib.term._toPythonMapping
    fresh = state()
    r1 = result(case["probe"])
    after = state()
    if r1 is not None and fresh != after:
        return [Finding("state", "after an expansion process-wide state differs: %s" % ", ".join(sorted(n for n in set(fresh) | set(after) if fresh.get(n) != after.get(n)))[:300])]
    if case["generic"]: owlrl.DeductiveClosure.use_improved_datatypes_conversions()
    try:
        before = state()
        for k, s in enumerate(case["steps"]):
            cls = C.CLASS[s["class"]]
            if s["fail"]: cls = failing(cls, s["fail"], {"Boom": Boom, "KeyboardInterrupt": KeyboardInterrupt}[s["exception"]])
            g = load_graph(s["triples"])
            failed = None
            try:
                limited(25, lambda: owlrl.DeductiveClosure(cls, improved_datatypes=s["improved"], rdfs_closure=s["rdfs"], axiomatic_triples=s["axioms"], datatype_axioms=s["daxioms"]).expand(g))
            except Timeout:
                return []
            except (Exception, KeyboardInterrupt) as e:
                failed = type(e).__name__
            after = state()
            if before.keys() != after.keys() or before != after:
                diff = sorted(n for n in set(before) | set(after) if before.get(n) != after.get(n))
                out.append(Finding("state", "after expansion %d (%s) process-wide state differs: %s" % (k + 1, "failed with " + failed if failed else "completed", ", ".join(diff)[:300])))
                return out
    finally:
        if case["generic"]: owlrl.DeductiveClosure.use_rdflib_datatypes_conversions()
    if dict(T) != ORIGINAL: out.append(Finding("rdflib", "RDFLib's conversion table is not the original one: %s" % ", ".join(sorted(str(k) for k in set(T) | set(ORIGINAL) if T.get(k) is not ORIGINAL.get(k)))[:300]))
    for n, t in TABLES.items():
        if (dict(t) if isinstance(t, dict) else list(t)) != IMPORTED[n] and n != "rdflib's conversion table": out.append(Finding("tables", "%s is not what it was when the package was imported" % n))
    r2 = result(case["probe"])
    if r1 is not None and r2 is not None and r1 != r2:
        out.append(Finding("history", "the same graph gives another result after these expansions (%s)" % ("%s and %s triples" % (r1[1], r2[1]) if isinstance(r1, tuple) and isinstance(r2, tuple) else "%s, %s" % (str(r1)[:60], str(r2)[:60]))))
    return out
