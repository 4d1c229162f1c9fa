"""Replays and bounded searches: runs the real code on concrete graphs and judges the result with the reference engine.

Never counted as proof.  It turns a failed obligation into a failing input, and cross-checks the proofs."""
import itertools
import json
import os
import random
import signal
import time
import resource
from concurrent.futures import ProcessPoolExecutor
import multiprocessing
from . import load, spec
import rdflib
from rdflib import URIRef, Literal, BNode, Graph, Dataset
from rdflib.namespace import RDF, RDFS, OWL, XSD
import owlrl
from .spec import Ref, isvar, safe_eq

EX = "http://example.org/"
ERR = URIRef("http://www.daml.org/2002/03/agents/agent-ont#ErrorMessage")
ERR_MSG = URIRef("http://www.daml.org/2002/03/agents/agent-ont#error")
CLASS = {"OWLRL": owlrl.OWLRL_Semantics, "RDFS": owlrl.RDFS_Semantics, "BOTH": owlrl.RDFS_OWLRL_Semantics, "EXT": owlrl.OWLRL_Extension,
         "TRIM": owlrl.OWLRL_Extension_Trimming}
OWL_T = [r for r in spec.OWLRL if r.concl is not None]
OWL_F = [r for r in spec.OWLRL if r.concl is None]


# ----- terms and cases ----------------------------------------------------------------------------------------------
def enc(t):
    if isinstance(t, Literal):
        return ["l", str(t), str(t.datatype) if t.datatype is not None else None, t.language]
    if isinstance(t, BNode):
        return ["b", str(t)]
    return ["u", str(t)]


def dec(x):
    if x[0] == "l":
        return Literal(x[1], lang=x[3]) if x[3] else Literal(x[1], datatype=URIRef(x[2]) if x[2] else None)
    return BNode(x[1]) if x[0] == "b" else URIRef(x[1])


def show(t):
    def f(x):
        s = x.n3() if not isinstance(x, Literal) else repr(str(x)) + ("^^" + x.datatype.split("/")[-1].split("#")[-1] if x.datatype else "") + ("@" + x.language if x.language else "")
        for n, u in spec.NS.items():
            s = s.replace("<" + u, n + ":<") if s.startswith("<" + u) else s
        return s.replace(":<", ":").rstrip(">") if ":<" in s else s
    return " ".join(f(x) for x in t)


class Case:
    def __init__(self, cls, triples, axioms=False, daxioms=False, rdfs=True, note=""):
        self.cls, self.triples, self.axioms, self.daxioms, self.rdfs, self.note = cls, list(dict.fromkeys(triples)), axioms, daxioms, rdfs, note

    def json(self):
        return {"class": self.cls, "axioms": self.axioms, "daxioms": self.daxioms, "rdfs": self.rdfs, "note": self.note,
                "triples": [[enc(x) for x in t] for t in self.triples]}

    @staticmethod
    def load(d):
        return Case(d["class"], [tuple(dec(x) for x in t) for t in d["triples"]], d["axioms"], d["daxioms"], d["rdfs"], d.get("note", ""))

    def but(self, triples):
        return Case(self.cls, triples, self.axioms, self.daxioms, self.rdfs, self.note)


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def limited(seconds, fn, *a, **kw):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(*a, **kw)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def another(t):
    """an equal term that is another object, as a parser makes one per occurrence"""
    return dec(enc(t)) if type(t) in (URIRef, BNode) else t


def expand(case, seconds=25):
    """(output triples, exception text, graph)"""
    g = Graph()
    for t in case.triples:
        g.add(tuple(map(another, t)))
    try:
        limited(seconds, lambda: owlrl.DeductiveClosure(CLASS[case.cls], rdfs_closure=case.rdfs, axiomatic_triples=case.axioms, datatype_axioms=case.daxioms).expand(g))
    except Timeout:
        return set(), "timeout", g
    except Exception as e:
        return set(g), "%s: %s" % (type(e).__name__, str(e)[:300]), g
    return set(g), None, g


# ----- oracle ---------------------------------------------------------------------------------------------------------
_PRIM = [XSD.anyURI, XSD.base64Binary, XSD.boolean, XSD.dateTime, XSD.decimal, XSD.double, XSD.float, XSD.hexBinary, XSD.string,
         URIRef(str(RDF) + "PlainLiteral"), URIRef(str(RDF) + "XMLLiteral")]
DISJOINT = [(a, OWL.disjointWith, b) for a, b in itertools.combinations(_PRIM, 2) if {a, b} != {XSD.string, URIRef(str(RDF) + "PlainLiteral")}]
RATIONAL = OWL.rational
H_RULES = [spec.Rule("dt-%s" % c, [("T", "?x", RDF.type, d)], ("?x", RDF.type, c)) for d, c in spec.HIERARCHY]
R_RULES = [spec.Rule("dt-rational", [("T", "?x", RDF.type, XSD.decimal)], ("?x", RDF.type, RATIONAL))]


def axiom_triples(case, imax=0):
    """the requested axiomatic triples (the tables themselves are decided by C11)"""
    A = load.AxiomaticTriples
    out = []
    rdfs = case.cls == "RDFS" or (case.cls == "BOTH" or (case.cls in ("EXT", "TRIM") and case.rdfs))
    owl = case.cls != "RDFS"
    if case.axioms:
        if rdfs:
            out += A.RDFS_Axiomatic_Triples
            n = max([int(str(p)[len(str(RDF)) + 1:]) for s, p, o in case.triples if isinstance(p, URIRef) and str(p).startswith(str(RDF) + "_")
                     and str(p)[len(str(RDF)) + 1:].isdigit()] + [0])
            for i in range(1, n + 1):
                ci = URIRef(str(RDF) + "_%d" % i)
                out += [(ci, RDF.type, RDF.Property), (ci, RDFS.domain, RDFS.Resource), (ci, RDFS.range, RDFS.Resource), (ci, RDF.type, RDFS.ContainerMembershipProperty)]
        if owl: out += A.OWLRL_Axiomatic_Triples
        if case.cls in ("EXT", "TRIM"): out += spec.SELF_AXIOMS
    if case.daxioms:
        if rdfs:
            out += A.RDFS_D_Axiomatic_Triples
            out += [(o, RDF.type, o.datatype) for s, p, o in list(case.triples) if isinstance(o, Literal) and o.datatype is not None]
        if owl: out += A.OWLRL_D_Axiomatic_Triples
    return [tuple(t) for t in out]


def same_value(a, b):
    if a == b:
        return True
    if a.value is not None and b.value is not None:
        return safe_eq(a.value, b.value)
    return False


def base(case):
    """the facts every rule-closed graph in question contains"""
    fs = list(case.triples) + axiom_triples(case)
    if case.cls == "RDFS":
        lits = [o for s, p, o in fs if isinstance(o, Literal)]
        lits = list(dict.fromkeys(lits))
        for s, p, o in list(fs):
            if isinstance(o, Literal):
                fs += [(s, p, l) for l in lits if l is not o and same_value(l, o)]
        return fs
    fs += [(OWL.Thing, RDF.type, OWL.Class), (OWL.Nothing, RDF.type, OWL.Class)]
    fs += [(a, RDF.type, OWL.AnnotationProperty) for a in spec.ANNOTATION]
    fs += [(d, RDF.type, RDFS.Datatype) for d in spec.SUPPORTED] + DISJOINT
    for s, p, o in list(fs):
        if isinstance(o, Literal) and o.datatype in spec.SUPPORTED:
            fs.append((o, RDF.type, o.datatype))
    if case.cls != "OWLRL":
        fs += spec.BINDING
    if case.cls in ("EXT", "TRIM"):
        fs += [(RATIONAL, RDF.type, RDFS.Datatype)]
        for s, p, o in list(fs):
            if isinstance(o, Literal) and o.datatype == RATIONAL:
                fs.append((o, RDF.type, RATIONAL))
    return fs


def rules_of(case):
    if case.cls == "RDFS":
        return list(spec.RDFS_RULES)
    rs = list(OWL_T)
    if case.cls == "BOTH" or (case.cls in ("EXT", "TRIM") and case.rdfs):
        rs += spec.RDFS_RULES
    if case.cls in ("EXT", "TRIM"):
        rs += spec.SELF_RULES
    return rs


def odd_lists(triples):
    """a list node with several rdf:first or rdf:rest values, or a cyclic list: the reading of the list is not determined"""
    seen = {}
    for s, p, o in triples:
        if p in (RDF.first, RDF.rest):
            if seen.setdefault((s, p), o) != o:
                return True
    for (s, p), o in seen.items():
        if p == RDF.rest:
            path = {s}
            while o is not None and o != RDF.nil:
                if o in path:
                    return True
                path.add(o)
                o = seen.get((o, RDF.rest))
    return False


def ill_typed(l):
    if not isinstance(l, Literal) or l.datatype is None:
        return False
    conv = load.DatatypeHandling.AltXSDToPYTHON.get(l.datatype)
    if conv is None or l.datatype not in spec.SUPPORTED:
        return False
    try:
        conv(str(l))
        return False
    except Exception:
        return True


def error_nodes(out):
    nodes = {s for s, p, o in out if p == RDF.type and o == ERR and isinstance(s, BNode)}
    return nodes


class Finding:
    def __init__(self, kind, text, **extra):
        self.kind, self.text, self.extra = kind, text, extra


def judge(case, kinds=None):
    """findings on one concrete expansion; kinds limits the work"""
    want = lambda k: kinds is None or k in kinds
    out, exc, g = expand(case)
    fs = []
    if exc == "timeout":
        return [Finding("timeout", "the expansion did not end within 25 s")]
    if exc is not None:
        if want("exception") and not odd_lists(case.triples):
            fs.append(Finding("exception", "the expansion raised %s" % exc))
        return fs
    owl = case.cls != "RDFS"
    inp = set(case.triples)
    if want("generalized"):
        for t in out:
            if isinstance(t[1], Literal) and t not in inp:
                fs.append(Finding("generalized", "literal as predicate: %s" % show(t)))
            if owl and isinstance(t[1], BNode):
                fs.append(Finding("generalized", "blank node as predicate: %s" % show(t)))
    if want("lost") and case.cls != "TRIM":
        for t in inp - out:
            if not isinstance(t[1], BNode):
                fs.append(Finding("lost", "input triple missing from the output: %s" % show(t)))
    errs = error_nodes(out) - {s for s, p, o in inp if p == RDF.type and o == ERR}
    if want("errornode"):
        msgs = []
        for e in errs:
            ts = [t for t in out if t[0] == e]
            others = [t for t in ts if t not in ((e, RDF.type, ERR),) and t[1] != ERR_MSG]
            ms = [t[2] for t in ts if t[1] == ERR_MSG]
            if len(ms) != 1 or others:
                fs.append(Finding("errornode", "error node with %d messages and %d other triples" % (len(ms), len(others))))
            msgs += ms
        if len(set(msgs)) != len(msgs):
            fs.append(Finding("errornode", "two error nodes with the same message"))
    if owl and case.cls != "TRIM" and not odd_lists(inp):
        # the first cycle reads the lists as in the input
        r = Ref(inp)
        if want("missing"):
            for rule, env, c in r.missing(rules_of(case)):
                if c not in out and not (isinstance(c[1], (Literal, BNode)) or (c[1] in spec.REFLEXIVE and c[0] == c[2])):
                    fs.append(Finding("missing", "%s: premises hold in the input, conclusion missing: %s" % (rule.name, show(c)), rule=rule.name))
                    break
        if want("unreported") and not errs:
            for rule, env in r.violations(OWL_F):
                fs.append(Finding("unreported", "%s: inconsistency of the input not reported, premises with %s" % (rule.name, {k: str(v) for k, v in env.items()}), rule=rule.name))
                break
    if case.cls == "TRIM" or odd_lists(out):
        return fs
    body = {t for t in out if t[0] not in errs}
    rules = rules_of(case)
    if want("missing"):
        r = Ref(body)
        for rule, env, c in r.missing(rules):
            if isinstance(c[1], (Literal, BNode)) or (c[1] in spec.REFLEXIVE and c[0] == c[2] and owl):
                continue
            if case.cls == "RDFS" and isinstance(c[1], BNode):
                pass
            fs.append(Finding("missing", "%s: premises hold in the output, conclusion missing: %s" % (rule.name, show(c)), rule=rule.name))
            break
        if case.cls != "RDFS" and case.cls != "OWLRL":
            for t in spec.BINDING:
                if t not in out:
                    fs.append(Finding("missing", "documented binding triple missing: %s" % show(t), rule="binding"))
    h = None
    if owl and want("unreported"):
        r = Ref(body)
        for rule, env in r.violations(OWL_F):
            if not errs:
                fs.append(Finding("unreported", "%s: inconsistency not reported, premises with %s" % (rule.name, {k: str(v) for k, v in env.items()}), rule=rule.name))
            break
    if want("unsound") or (want("spurious") and errs):
        h = Ref(base(case))
        hr = rules + (H_RULES if owl else []) + (R_RULES if case.cls == "EXT" else [])
        h.close(hr)
        if len(h.set) <= 20000:
            if want("unsound"):
                for t in sorted(body - h.set, key=str):
                    fs.append(Finding("unsound", "triple is not entailed: %s" % show(t)))
                    break
            if want("spurious") and errs:
                if not any(True for _ in h.violations(OWL_F)) and not any(ill_typed(o) for s, p, o in h.set):
                    m = [str(o) for s, p, o in out if p == ERR_MSG]
                    fs.append(Finding("spurious", "error reported without an inconsistency: %s" % m[:1]))
    return fs


# ----- generators ---------------------------------------------------------------------------------------------------
class Gen:
    """random instances of rules"""
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.triples = []

    def fresh(self, kind="u"):
        self.n += 1
        if kind == "b":
            return BNode("b%d" % self.n)
        if kind == "u" and self.rng.random() < .01:
            return URIRef("")                     # a relative reference, false in Python
        return URIRef(EX + "x%d" % self.n)

    def literal(self):
        r = self.rng
        return r.choice([Literal("a"), Literal("a", lang="en"), Literal("1", datatype=XSD.integer), Literal("1", datatype=XSD.byte), Literal("x", datatype=XSD.string),
                         Literal("z", datatype=URIRef(EX + "dt")), Literal("7", datatype=XSD.unsignedByte), Literal("true", datatype=XSD.boolean),
                         Literal("b c", datatype=XSD.token), Literal("2010-01-01", datatype=XSD.date)])

    def lst(self, items):
        if not items:
            return RDF.nil
        nodes = [self.fresh("b" if self.rng.random() < .5 else "n") for _ in items]
        for k, (n, x) in enumerate(zip(nodes, items)):
            self.triples.append((n, RDF.first, x))
            self.triples.append((n, RDF.rest, nodes[k + 1] if k + 1 < len(nodes) else RDF.nil))
        return nodes[0]

    def rule(self, r, mode="plain", env=None, depth=1, goal=None):
        """adds an instance of the premises"""
        rng = self.rng
        env = dict(env or {})
        subj, pred = set(), set()
        for a in r.prem:
            if a[0] == "T":
                subj.add(a[1]); pred.add(a[2])
            elif a[0] in ("ALLTYPE", "KEYS", "PATH"):
                subj.update(x for x in a[2:])
        lists = {a[1] for a in r.prem if a[0] in ("MEM", "NONEMPTY", "ALLTYPE", "PATH", "KEYS")}
        vals = {a[1]: a[2] for a in r.prem if a[0] == "VAL"}
        neq = {frozenset(a[1:]) for a in r.prem if a[0] == "NEQ"}
        members = {a[3] for a in r.prem if a[0] == "MEM"}
        plist = any(a[0] in ("PATH", "KEYS") for a in r.prem) or r.name in ("prp-adp",)
        free = [v for v in r.vars if v not in lists and v not in vals and v not in ("?i", "?j") and v not in env]
        for v in free:
            x = rng.random()
            used = [u for u in env if u.startswith("?") and not isinstance(env[u], int) and isinstance(env[u], (URIRef, BNode))]
            if x < .12 and used and not any(v in q for q in neq):
                env[v] = env[rng.choice(used)]
            elif x < .2 and v not in subj and v not in pred and v not in members:
                env[v] = self.literal()
            elif x < .32 and v not in pred and not (v in members and plist):
                env[v] = self.fresh("b")
            else:
                env[v] = self.fresh()
        for v, n in vals.items():
            env[v] = rng.choice([Literal(str(n), datatype=XSD.nonNegativeInteger), Literal(str(n), datatype=XSD.integer), Literal(str(n), datatype=XSD.integer),
                                 Literal("%02d" % n, datatype=XSD.nonNegativeInteger)])
        extra = []
        pos = {}
        for l in lists:
            mem = [a for a in r.prem if a[0] == "MEM" and a[1] == l]
            shape = [a for a in r.prem if a[0] in ("PATH", "KEYS", "ALLTYPE") and a[1] == l]
            if mem:
                n = max(len(mem), rng.choice(LENGTHS))
                idx = sorted(rng.sample(range(n), len(mem)))
                items = [self.fresh() for _ in range(n)]
                for k, a in zip(idx, mem):
                    items[k] = env[a[3]]
                    pos[a[2]] = k
                env[l] = self.lst(items)
            else:
                a = shape[0]
                n = rng.choice(LENGTHS)
                items = [self.fresh() for _ in range(n)]
                if n > 1 and rng.random() < .15: items[1] = items[0]
                if a[0] == "ALLTYPE":
                    extra += [(env[a[2]], RDF.type, c) for c in items]
                elif a[0] == "PATH":
                    nodes = [env[a[2]]] + [self.fresh() for _ in range(n - 1)] + [env[a[3]]]
                    extra += [(nodes[k], items[k], nodes[k + 1]) for k in range(n)]
                    if rng.random() < .3:
                        extra.append((nodes[0], items[0], self.fresh()))
                else:
                    for k in range(n):
                        v = self.literal() if rng.random() < .4 else self.fresh()
                        extra += [(env[a[2]], items[k], v), (env[a[3]], items[k], v)]
                        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4])):
                            extra.append((env[rng.choice(a[2:])], items[k], self.fresh()))
                    if rng.random() < .5: rng.shuffle(extra)
                env[l] = self.lst(items)
        atoms = [a for a in r.prem if a[0] == "T"]
        ts = [tuple(env[x] if isvar(x) else x for x in a[1:]) for a in atoms]
        if mode == "drop":
            pool = ts + extra
            k = rng.randrange(len(pool))
            if k < len(ts): ts.pop(k)
            else: extra.pop(k - len(ts))
        elif mode == "unlink":
            occ = [(k, j) for k, a in enumerate(atoms) for j in range(3) if isvar(a[1 + j]) and sum(1 for b in r.prem for y in b[1:] if y == a[1 + j]) > 1]
            if occ:
                k, j = rng.choice(occ)
                t = list(ts[k])
                t[j] = self.fresh()
                ts[k] = tuple(t)
        elif mode == "swap":
            k = rng.randrange(len(ts))
            s, p, o = ts[k]
            ts[k] = (o, p, s)
        elif mode == "vocab":
            # replace a vocabulary term of a premise by another
            k = rng.randrange(len(ts))
            s, p, o = ts[k]
            if not isvar(atoms[k][2]):
                p2 = rng.choice(VOCAB_P)
                ts[k] = (s, p2, o)
            if not isvar(atoms[k][3]):
                ts[k] = (s, ts[k][1], rng.choice(VOCAB_C))
        elif mode == "value":
            for v in vals:
                new = rng.choice([Literal("2", datatype=XSD.integer), Literal("0", datatype=XSD.integer), Literal("1", datatype=XSD.integer), Literal("1"), Literal("0"), Literal("x", datatype=XSD.integer), self.fresh()])
                ts = [tuple(new if x is env[v] else x for x in t) for t in ts]
        if mode in ("derived", "chain"):
            for k in range(len(ts)):
                if rng.random() < .5:
                    self.derive(ts[k], depth)
                else:
                    self.triples.append(ts[k])
            for t in extra:
                if rng.random() < .3: self.derive(t, depth)
                else: self.triples.append(t)
        elif mode == "late":
            k = rng.randrange(len(ts + extra))
            for i, t in enumerate(ts + extra):
                if i == k: self.late(t, rng.randint(1, 5))
                else: self.triples.append(t)
        else:
            self.triples += ts + extra
        return env

    def late(self, t, n):
        """t follows, but only after n+2 cycles: a chain in which each cycle enables the next (rdfs7, prp-spo1)"""
        s, p, o = t
        if p in (RDF.first, RDF.rest):
            self.triples.append(t)
            return
        es = [self.fresh() for _ in range(n + 1)]
        self.triples.append((es[0], RDFS.subPropertyOf, RDFS.subPropertyOf))
        for a, b in zip(es, es[1:]):
            self.triples.append((b, a, RDFS.subPropertyOf))
        q = self.fresh()
        self.triples += [(q, es[-1], p), (s, q, o)]

    def derive(self, t, depth):
        """premises from which t follows, instead of t"""
        rng = self.rng
        s, p, o = t
        x = rng.random()
        if p == RDF.type and x < .35:
            c = self.fresh()
            self.triples += [(s, RDF.type, c), (c, RDFS.subClassOf, o)]
        elif p not in (RDF.first, RDF.rest, RDFS.subPropertyOf, OWL.sameAs) and x < .75:
            q = self.fresh()
            self.triples += [(s, q, o), (q, RDFS.subPropertyOf, p)]
        elif p not in (RDF.first, RDF.rest) and not isinstance(s, Literal) and p != OWL.sameAs and x < .9:
            s2 = self.fresh()
            self.triples += [(s2, p, o), (s2, OWL.sameAs, s)]
        else:
            self.triples.append(t)


LENGTHS = [1, 2, 2, 2, 3, 3, 4, 4, 5, 7]
VOCAB_P = [RDF.type, RDFS.subClassOf, RDFS.subPropertyOf, RDFS.domain, RDFS.range, OWL.sameAs, OWL.differentFrom, OWL.equivalentClass, OWL.equivalentProperty,
           OWL.inverseOf, OWL.disjointWith, OWL.propertyDisjointWith, OWL.complementOf, OWL.someValuesFrom, OWL.allValuesFrom, OWL.hasValue, OWL.onProperty, OWL.unionOf,
           OWL.intersectionOf, OWL.oneOf, OWL.maxCardinality, OWL.onClass, OWL.members, OWL.distinctMembers, OWL.maxQualifiedCardinality, OWL.propertyChainAxiom, OWL.hasKey]
VOCAB_C = [OWL.Class, RDFS.Class, RDF.Property, OWL.ObjectProperty, OWL.DatatypeProperty, OWL.FunctionalProperty, OWL.InverseFunctionalProperty, OWL.SymmetricProperty,
           OWL.AsymmetricProperty, OWL.TransitiveProperty, OWL.IrreflexiveProperty, OWL.Thing, OWL.Nothing, RDFS.Resource, RDFS.Datatype, OWL.AllDifferent,
           OWL.AllDisjointProperties, OWL.AllDisjointClasses, RDFS.ContainerMembershipProperty]
MODES = ["plain", "plain", "derived", "unlink", "drop", "swap", "vocab", "plain", "derived", "value", "unlink", "late"]


def rule_cases(cls, rules, seed, focus=None, modes=MODES):
    """endless sequence of cases: every rule in turn, in every mode; focus: rule names to visit more often"""
    base_rules = rules
    k = 0
    while True:
        for rnd in modes:
            for r in base_rules:
                if focus and r.name not in focus and k % 3:
                    k += 1
                    continue
                k += 1
                rng = random.Random("%s/%s/%d" % (seed, cls, k))
                if rnd == "value" and not any(a[0] == "VAL" for a in r.prem):
                    mode = "derived"
                else:
                    mode = rnd
                g = Gen(rng)
                g.rule(r, mode)
                note = "%s %s" % (r.name, mode)
                if rng.random() < .3:
                    r2 = rng.choice(base_rules)
                    env = {}
                    terms = [x for t in g.triples for x in (t[0], t[2]) if isinstance(x, URIRef) and x.startswith(EX)]
                    preds = [t[1] for t in g.triples if t[1].startswith(EX)]
                    vs = [v for v in r2.vars if v not in ("?i", "?j") and not any(a[0] in ("MEM", "PATH", "KEYS", "ALLTYPE", "NONEMPTY", "VAL") and v == a[1] for a in r2.prem)
                          and not any(a[0] == "NEQ" and v in a for a in r2.prem)]
                    for v in vs:
                        if terms and rng.random() < .5:
                            isp = any(a[0] == "T" and a[2] == v for a in r2.prem)
                            env[v] = rng.choice(preds) if isp and preds else rng.choice(terms)
                    g.rule(r2, rng.choice(["plain", "unlink", "drop", "derived"]), env)
                    note += " + " + r2.name
                ts = g.triples
                yield Case(cls, ts, axioms=rng.random() < .04 and cls != "EXT", daxioms=rng.random() < .04, rdfs=rng.random() < .5 if cls in ("EXT", "TRIM") else True, note=note)


def random_cases(cls, seed):
    """small random graphs over the vocabulary"""
    k = 0
    while True:
        k += 1
        rng = random.Random("%s/%s/r%d" % (seed, cls, k))
        g = Gen(rng)
        ind = [g.fresh() for _ in range(3)] + [BNode("n1")]
        props = [URIRef(EX + "p"), URIRef(EX + "q")]
        cl = [URIRef(EX + "C"), URIRef(EX + "D"), OWL.Thing]
        lists = [g.lst([rng.choice(cl) for _ in range(rng.choice([0, 1, 2, 3]))]), g.lst([rng.choice(props) for _ in range(rng.choice([1, 2, 3]))]), g.lst([rng.choice(ind) for _ in range(rng.choice([1, 2, 3]))])]
        anyt = ind + props + cl + lists + [g.literal(), g.literal(), Literal("0", datatype=XSD.nonNegativeInteger), Literal("1", datatype=XSD.nonNegativeInteger)]
        ts = list(g.triples)
        for _ in range(rng.randint(2, 9)):
            x = rng.random()
            if x < .3: ts.append((rng.choice(ind), rng.choice(props), rng.choice(ind + [g.literal()])))
            elif x < .5: ts.append((rng.choice(ind + cl + props), RDF.type, rng.choice(cl + VOCAB_C)))
            elif x < .95: ts.append((rng.choice(ind + props + cl), rng.choice(VOCAB_P), rng.choice(anyt + ind + props + cl)))
            else: ts.append((rng.choice(anyt), rng.choice(props + [BNode("bp")]), rng.choice(anyt)))
        yield Case(cls, ts, rdfs=rng.random() < .5, note="random")


# ----- search ---------------------------------------------------------------------------------------------------------
_judge = None


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except Exception:
        pass


def _run(case):
    try:
        return _judge(case)
    except Timeout:
        return []
    except MemoryError:
        return []


def search(cases, judgef, budget, max_cases=None, procs=8, stop=1):
    """runs judgef on the cases until a finding or the end of the budget; (cases run, [(case, finding)])"""
    global _judge
    _judge = judgef
    t0 = time.time()
    n, found = 0, []
    it = iter(cases)
    ex = ProcessPoolExecutor(procs, mp_context=multiprocessing.get_context("fork"), initializer=_init)
    pend = {}
    try:
        from concurrent.futures import wait, FIRST_COMPLETED
        done_iter = False
        while True:
            while not done_iter and len(pend) < 3 * procs and time.time() - t0 < budget and (max_cases is None or n + len(pend) < max_cases):
                try:
                    c = next(it)
                except StopIteration:
                    done_iter = True
                    break
                pend[ex.submit(_run, c)] = c
            if not pend:
                break
            done, _ = wait(list(pend), timeout=60, return_when=FIRST_COMPLETED)
            if not done:
                break
            for f in done:
                c = pend.pop(f)
                n += 1
                fs = f.result()
                if fs:
                    found.append((c, fs[0]))
            if len(found) >= stop or time.time() - t0 > budget + 40:
                break
    except Exception as e:                                     # a worker died (memory): what was found so far counts
        if os.environ.get("VERIF_DEBUG"): raise
    finally:
        for p in list(getattr(ex, "_processes", {}).values() or []):
            try: p.kill()
            except Exception: pass
        ex.shutdown(wait=False, cancel_futures=True)
    return n, found


def minimise(case, judgef, kind, seconds=30):
    """greedily removes triples while the finding of that kind stays"""
    t0 = time.time()
    best = case
    f0 = None
    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        for t in list(best.triples):
            if time.time() - t0 > seconds:
                break
            c = best.but([x for x in best.triples if x != t])
            try:
                fs = [f for f in judgef(c) if f.kind == kind]
            except BaseException:
                fs = []
            if fs:
                best, f0, changed = c, fs[0], True
    return best, f0
