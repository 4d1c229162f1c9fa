"""Concrete search for C14: restricted datatypes built directly and from graphs, in the extended closure."""
import random
import re
from rdflib import Graph, URIRef, BNode, Literal
from rdflib.collection import Collection
from rdflib.namespace import RDF, RDFS, OWL, XSD
import owlrl
from . import load
from .concrete import Finding

EX = "http://example.org/"
LR = URIRef(str(RDF) + "langRange")
PLAIN = URIRef(str(RDF) + "PlainLiteral")
ORDERED = {XSD.integer: ["-3", "0", "1", "2", "3", "5", "10", "+2", "007", "100000000000000000000000", "-100000000000000000000001"], XSD.byte: ["-3", "0", "1", "2", "5", "10"], XSD.unsignedInt: ["0", "1", "2", "5", "10"], XSD.positiveInteger: ["1", "2", "5", "10"],
           XSD.decimal: ["-1.5", "0.0", "1.0", "1.5", "2.0", "5.25", "0.30000000000000004", "0.3", "1.50", "100000000000000000000000.5"], XSD.long: ["-3", "0", "1", "2", "5"], XSD.nonNegativeInteger: ["0", "1", "2", "5", "10"], XSD.short: ["-3", "0", "1", "7"],
           XSD.double: ["-1.5", "0.1", "0.0", "1.0E0", "1.5", "2.5"], XSD.float: ["-1.5", "0.1", "0.0", "1.5", "2.5"], XSD.date: ["2019-12-31", "2020-01-01", "2020-02-29", "2021-06-01"], XSD.unsignedByte: ["0", "1", "200"],
           XSD.dateTime: ["2020-01-01T00:00:00", "2020-01-01T00:00:01", "2020-01-01T12:00:00", "2020-01-01T00:00:00.5", "2020-01-01T00:00:00.000001", "0001-01-01T00:00:00", "2021-05-05T00:00:00"], XSD.dateTimeStamp: ["2020-01-01T00:00:00Z", "2020-01-01T00:00:01Z", "2020-01-01T02:00:00+01:00"],
           XSD.time: ["00:00:00", "10:20:30", "10:20:30.5", "10:20:30.000001", "23:59:59"], XSD.int: ["-3", "0", "4", "9"], XSD.nonPositiveInteger: ["-9", "-1", "0"], XSD.negativeInteger: ["-9", "-2", "-1"], XSD.unsignedShort: ["0", "3", "9"], XSD.unsignedLong: ["0", "3", "9"]}
OCTETS = {XSD.hexBinary: ["", "0F", "0F1A", "0F1A2B", "0f1a", "00", "2020", "200A0D20", "0F1A2B3C4D"], XSD.base64Binary: ["AA==", "AAEC", "AAECAw==", "+/+/", "ICAg", "AAECAwQF"]}
TEXTS = {XSD.string: ["", "a", "ab", "abc", "bc", "aab", "a b", "xyz", "ab ", " ab", "ab\n", "a\nb", "\u00e9", "\u65e5\u672c", "\U0001f600b", "AB", "a\tb", "   ", "a.b", "[a]"], XSD.token: ["a", "ab", "abc", "a b"], XSD.NMTOKEN: ["a", "ab", "abc", "1a"], XSD.Name: ["a", "ab", "abc"], XSD.NCName: ["a", "ab", "abc"],
         XSD.language: ["en", "de", "fr"], XSD.normalizedString: ["a", "ab", "abc"], XSD.anyURI: ["a", "ab", "abc"]}
PLAINS = ["a@en", "ab@en-us", "abc@de", "ab@en-latn-us", "a@", "abc@", "xyz@x-en", "ab @en", "AB@EN-US", "\u00e9@fr", "ab\n@de"]
PATTERNS = ["a", "a+", "a.*", ".*b.*", "[a-c]+", "b|ab", "(a|b)*", "abc?", ".{2}", "x", ".*", "a|ab", "^ab$", "a b", "\\S+", "[A-Z]*", "\\w{1,2}", "", "(?s).*", "ab\n?"]
RANGES = ["en", "*", "de", "en-us", "*-us", "en-*", "en-*-us", "x", "EN-US", "*-*", "fr"]
KINDS = ["minInclusive", "minExclusive", "maxInclusive", "maxExclusive", "length", "minLength", "maxLength", "pattern", "langRange"]


def gen(rng):
    group = rng.choice(["ordered"] * 4 + ["octets", "texts", "texts", "texts", "plain", "plain"])
    fs = []
    if group == "ordered":
        base = rng.choice(list(ORDERED))
        pool = ORDERED[base]
        for _ in range(rng.randint(0, 4)): fs.append([rng.choice(KINDS[:4]), rng.choice(pool)])
    else:
        tab = {"octets": OCTETS, "texts": TEXTS, "plain": {PLAIN: PLAINS}}[group]
        base = rng.choice(list(tab))
        pool = tab[base]
        for _ in range(rng.randint(0, 4)):
            k = rng.choice(KINDS[4:7] if group == "octets" else KINDS[4:8] if group == "texts" else KINDS[4:9] + ["langRange"] * 3)
            fs.append([k, rng.choice(PATTERNS) if k == "pattern" else rng.choice(RANGES) if k == "langRange" else str(rng.randint(0, 4))])
    if rng.random() < .1: fs.append(["fractionDigits", "1"])
    split = rng.random() < .5
    return {"base": str(base), "facets": fs, "one_node": not split, "values": rng.sample(pool, min(len(pool), rng.randint(2, 5)))}


def value(dt, s): return load.DatatypeHandling.AltXSDToPYTHON[dt](s)


def octets(base, s):
    if base == XSD.hexBinary: return len(s) // 2
    import base64
    return len(base64.b64decode(s))


def inside(base, fs, s):
    """oracle: does the lexical form s of the base type lie within the facets"""
    for k, f in fs:
        if base in ORDERED:
            if k not in KINDS[:4]: continue
            v, b = value(base, s), value(base, f)
            if not {"minInclusive": b <= v, "minExclusive": b < v, "maxInclusive": v <= b, "maxExclusive": v < b}[k]: return False
            continue
        text, lang = s, None
        if base == PLAIN:
            text, _, lang = s.rpartition("@")
        n = octets(base, s) if base in OCTETS else len(text)
        if k == "length" and n != int(f) or k == "minLength" and n < int(f) or k == "maxLength" and n > int(f): return False
        if k == "pattern" and base not in OCTETS and re.fullmatch(f, text) is None: return False
        if k == "langRange" and base == PLAIN:
            from .blang import matches
            if not lang or not matches(f.split("-"), lang.split("-")): return False
    return True


def lit(base, k, f):
    if k in KINDS[:4]: return Literal(f, datatype=base)
    if k in KINDS[4:7]: return Literal(f, datatype=XSD.nonNegativeInteger if int(f) % 2 else XSD.integer)
    return Literal(f)


def plain(case, fs):
    """allValuesFrom a restriction of rdf:PlainLiteral"""
    g = Graph()
    D, R, p, x = [URIRef(EX + n) for n in ("dt", "restriction", "p", "x")]
    n = [BNode() for f in fs]
    for b, (k, f) in zip(n, fs): g.add((b, facet_uri(k), lit(PLAIN, k, f)))
    head = BNode() if n else RDF.nil
    if n: Collection(g, head, n)
    for t in ((D, RDF.type, RDFS.Datatype), (D, OWL.onDatatype, PLAIN), (D, OWL.withRestrictions, head), (R, OWL.onProperty, p), (R, OWL.allValuesFrom, D), (x, RDF.type, R)): g.add(t)
    s = case["values"][0]
    text, _, lang = s.rpartition("@")
    l = Literal(text, lang=lang or None)
    g.add((x, p, l))
    owlrl.DeductiveClosure(owlrl.OWLRL_Extension).expand(g)
    errs, typed, want = list(g.objects(None, URIRef("http://www.daml.org/2002/03/agents/agent-ont#error"))), (l, RDF.type, D) in g, inside(PLAIN, fs, s)
    if want != typed: return [Finding("typed" if typed else "untyped", "allValuesFrom the restriction of rdf:PlainLiteral to %s: %r typed %s" % (fs, s, typed))]
    if want == bool(errs): return [Finding("spurious" if want else "unreported", "allValuesFrom the restriction of rdf:PlainLiteral to %s: %r, errors %s" % (fs, s, errs))]
    return []


def facet_uri(k): return LR if k == "langRange" else URIRef(str(XSD) + k)


def judge(case):
    base, fs = URIRef(case["base"]), [tuple(f) for f in case["facets"]]
    out = []
    rd = load.RestrictedDatatype
    conv = []
    try:
        for k, f in fs:
            l = lit(base, k, f)
            conv.append((facet_uri(k), str(l) if l.datatype is None else value(l.datatype, f)))
        dt = rd.RestrictedDatatype(URIRef(EX + "dt"), base, conv)
    except Exception as e:
        return [Finding("exception", "restricting %s by %s: %s: %s" % (base.n3(), fs, type(e).__name__, e))]
    for s in case["values"]:
        want = inside(base, fs, s)
        try:
            got = dt.toPython(s)
            got = True
        except ValueError:
            got = False
        except Exception as e:
            return [Finding("exception", "%r against %s of %s: %s" % (s, fs, base.n3(), e))]
        if got != want: out.append(Finding("accepted" if got else "rejected", "%r is %s by the restriction of %s to %s" % (s, "accepted" if got else "rejected", base.n3(), fs)))
    if out or not case["values"]: return out
    if base == PLAIN: return plain(case, fs)
    # in the extended closure (lexical forms of plain literals have no datatyped literals)
    g = Graph()
    D, R, p, x = [URIRef(EX + n) for n in ("dt", "restriction", "p", "x")]
    g.add((D, RDF.type, RDFS.Datatype)); g.add((D, OWL.onDatatype, base))
    nodes = []
    if case["one_node"] and fs:
        n = BNode()
        nodes = [n]
        for k, f in fs: g.add((n, facet_uri(k), lit(base, k, f)))
    else:
        for k, f in fs:
            n = BNode()
            nodes.append(n)
            g.add((n, facet_uri(k), lit(base, k, f)))
    head = BNode() if nodes else RDF.nil
    if nodes: Collection(g, head, nodes)
    g.add((D, OWL.withRestrictions, head))
    for k, s in enumerate(case["values"]): g.add((URIRef(EX + "v%d" % k), URIRef(EX + "q"), Literal(s, datatype=base)))
    g2 = Graph()
    for t in g: g2.add(t)
    try:
        owlrl.DeductiveClosure(owlrl.OWLRL_Extension).expand(g)
    except Exception as e:
        return [Finding("exception", "closure of values %s of %s within %s: %s: %s" % (case["values"], base.n3(), fs, type(e).__name__, e))]
    for s in case["values"]:
        want = inside(base, fs, s)
        got = (Literal(s, datatype=base), RDF.type, D) in g
        if got != want: out.append(Finding("typed" if got else "untyped", "%r is %s with the restriction of %s to %s in the extended closure" % (s, "typed" if got else "not typed", base.n3(), fs)))
    if out: return out
    s = case["values"][0]
    l = Literal(s, datatype=base)
    g2.add((R, OWL.onProperty, p)); g2.add((R, OWL.allValuesFrom, D)); g2.add((x, RDF.type, R)); g2.add((x, p, l))
    owlrl.DeductiveClosure(owlrl.OWLRL_Extension).expand(g2)
    errs = [str(o) for o in g2.objects(None, URIRef("http://www.daml.org/2002/03/agents/agent-ont#error"))]
    typed = (l, RDF.type, D) in g2
    want = inside(base, fs, s)
    if want and errs: out.append(Finding("spurious", "allValuesFrom the restriction of %s to %s reports %s for the accepted %r" % (base.n3(), fs, errs[0], s)))
    if not want and not errs: out.append(Finding("unreported", "allValuesFrom the restriction of %s to %s reports nothing for the rejected %r" % (base.n3(), fs, s)))
    if want != typed: out.append(Finding("typed" if typed else "untyped", "allValuesFrom the restriction of %s to %s: %r typed %s" % (base.n3(), fs, s, typed)))
    return out
