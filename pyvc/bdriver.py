"""Concrete cross-check of the driver (C08): random rule systems as user defined closure classes, against a reference fixpoint."""
import random
from . import load
from .concrete import Finding, limited, Timeout, ERR, ERR_MSG
import rdflib
from rdflib import Graph, Dataset, URIRef, Literal, BNode
from rdflib.namespace import RDF
from owlrl.Closure import Core
import owlrl

EX = "http://example.org/"
PH = ["pre_process", "add_axioms", "add_d_axioms", "one_time_rules", "post_process"]


def T(x):
    return Literal(x[2:]) if x.startswith("l:") else BNode(x[2:]) if x.startswith("b:") else URIRef(EX + x)


def gen(rng):
    ents = ["e%d" % i for i in range(rng.randint(2, 4))] + ["l:x", "b:n"]
    preds = ["p%d" % i for i in range(rng.randint(2, 4))]
    var = ["?x", "?y", "?z"]

    def triple():
        return [rng.choice(ents), rng.choice(preds), rng.choice(ents)]

    def pat():
        return [rng.choice(var[:2] + ents[:2]) if rng.random() < .85 else rng.choice(ents), rng.choice(preds) if rng.random() < .85 else "?y", rng.choice(var + ents[:1])]
    rules = []
    for _ in range(rng.randint(1, 5)):
        prem = [pat() for _ in range(rng.choice([1, 1, 2]))]
        vs = sorted({x for p in prem for x in p if x[0] == "?"})
        concl = [rng.choice(vs) if vs and rng.random() < .75 else rng.choice(ents), rng.choice(preds) if rng.random() < .8 else rng.choice(vs + ["l:pred"]), rng.choice(vs) if vs and rng.random() < .75 else rng.choice(ents)]
        r = {"prem": prem, "concl": concl}
        if rng.random() < .3: r["error"] = "m%d" % rng.randint(0, 2) + (vs[0] if vs and rng.random() < .5 else "")
        if rng.random() < .1: r["first"] = True
        rules.append(r)
    # a chain, so that several cycles are needed
    if rng.random() < .4:
        n = rng.choice([2, 3, 4, 5, 6, 7, 10, 40])
        rules += [{"prem": [["?x", "c%d" % i, "?y"]], "concl": ["?x", "c%d" % (i + 1), "?y"]} for i in range(n)]
        rng.shuffle(rules)
    case = {"input": [triple() for _ in range(rng.randint(0, 4))] + ([["e0", "c0", "e1"]] if rng.random() < .7 else []), "rules": rules, "axioms": rng.random() < .6, "daxioms": rng.random() < .6,
            "graph": rng.choice(["plain", "plain", "plain", "dataset", "named"]), "base": rng.choice(["Core", "Core", "RDFS"])}
    for ph in PH:
        case[ph] = {"store": [triple() for _ in range(rng.choice([0, 0, 1, 2]))], "errors": ["m%d" % rng.randint(0, 3) for _ in range(rng.choice([0, 0, 1, 2]))],
                    "add": [triple() for _ in range(rng.choice([0, 0, 1]))] if ph != "one_time_rules" else []}
    if rng.random() < .1:
        case["post_process"]["store"].append(["e0", "l:bad", "e1"])
    return case


def match(p, t, env):
    env = dict(env)
    for a, b in zip(p, t):
        if a[0] == "?":
            if env.setdefault(a, b) != b: return None
        elif T(a) != b: return None
    return env


def inst(c, env):
    return tuple(env[x] if x[0] == "?" else T(x) for x in c)


def fires(r, t, graph_lookup):
    """conclusions of the rule for the triple t (as the first premise)"""
    env = match(r["prem"][0], t, {})
    if env is None: return []
    if len(r["prem"]) == 1: return [env]
    out = []
    for t2 in graph_lookup():
        e2 = match(r["prem"][1], t2, env)
        if e2 is not None: out.append(e2)
    return out


def errtext(r, env):
    m = r["error"]
    return m if "?" not in m else m[:m.index("?")] + str(env[m[m.index("?"):]])


def make(case, log):
    """the user defined closure class of the case"""
    base = Core if case["base"] == "Core" else owlrl.RDFS_Semantics
    g0 = {}

    def phase(ph):
        spec = case[ph]

        def f(self):
            log.append((ph, set(self.graph.triples((None, None, None)))))
            for t in spec["store"]: self.store_triple(tuple(T(x) for x in t))
            for t in spec["add"]: self.destination.add(tuple(T(x) for x in t))
            for m in spec["errors"]: self.add_error(m)
        return f

    def rules(self, t, cycle_num):
        t = tuple(t)[:3]
        if log and log[-1][0] == "rules" and log[-1][1] == cycle_num:
            log[-1][2].append(t)
        else:
            log.append(("rules", cycle_num, [t]))
        for r in case["rules"]:
            if r.get("first") and cycle_num > 1: continue
            for env in fires(r, t, lambda: [tuple(x)[:3] for x in self.graph.triples((None, None, None))]):
                c = inst(r["concl"], env)
                self.store_triple(c)
                if "error" in r: self.add_error(errtext(r, env))
    return type("UserClosure", (base,), dict({ph: phase(ph) for ph in PH}, rules=rules))


def judge(case):
    log = []
    cls = make(case, log)
    if case["graph"] == "plain":
        g = out = Graph()
        dest = None
    else:
        g = Dataset()
        dest = EX + "named" if case["graph"] == "named" else None
        out = g.get_context(URIRef(dest)) if dest else g.default_context
    src = g if case["graph"] == "plain" else g.default_context
    inp = {tuple(T(x) for x in t) for t in case["input"]}
    for t in inp: src.add(t)
    try:
        limited(20, lambda: owlrl.DeductiveClosure(cls, axiomatic_triples=case["axioms"], datatype_axioms=case["daxioms"], rdfs_closure=False).expand(g, dest))
    except Timeout:
        return [Finding("timeout", "expansion of a rule system without new terms does not terminate")]
    except Exception as e:
        return [Finding("exception", "%s: %s" % (type(e).__name__, e))]
    return check(case, log, inp, {tuple(t)[:3] for t in g.triples((None, None, None))}, {tuple(t)[:3] for t in out.triples((None, None, None))})


def check(case, log, inp, got, dest):
    tr = lambda ts: {tuple(T(x) for x in t) for t in ts}
    okp = lambda ts: {t for t in ts if not isinstance(t[1], Literal)}
    want, errors = set(inp), set()
    order = []
    # reference
    snap = {}

    def phase(ph):
        order.append(ph)
        snap[ph] = set(want) | pend
        sp = case[ph]
        errors.update(sp["errors"])
        return okp(tr(sp["store"])), tr(sp["add"])
    pend = set()
    phases = ["pre_process"] + (["add_axioms"] if case["axioms"] else []) + (["add_d_axioms"] if case["daxioms"] else [])
    for ph in phases:
        s, a = phase(ph)
        want |= a
        pend |= s
    want |= pend
    pend = set()
    s, a = phase("one_time_rules")
    want |= s | a
    cyc = 0
    while True:
        cyc += 1
        new = set()
        for r in case["rules"]:
            if r.get("first") and cyc > 1: continue
            for t in list(want):
                for env in fires(r, t, lambda: want):
                    new.add(inst(r["concl"], env))
                    if "error" in r: errors.add(errtext(r, env))
        new = okp(new) - want
        if not new: break
        want |= new
    s, a = phase("post_process")
    want |= s | a
    out = []
    names = []
    for e in log:
        names.append(e[0] if e[0] != "rules" else "rules")
    dedup = [n for k, n in enumerate(names) if n != "rules" or k == 0 or names[k - 1] != "rules"]
    expect = phases + ["one_time_rules"] + (["rules"] if "rules" in names or (want and len(snap["post_process"]) > 0) else []) + ["post_process"]
    if dedup != expect:
        out.append(Finding("order", "phases ran in the order %s instead of %s" % (dedup, expect)))
    nodes = {s for s, p, o in got if p == RDF.type and o == ERR}
    plain = {t for t in got if t[0] not in nodes}
    if want - plain:
        out.append(Finding("missing", "missing in the output: %s" % sorted(map(str, want - plain))[:3]))
    if plain - want:
        out.append(Finding("extra", "not derivable: %s" % sorted(map(str, plain - want))[:3]))
    msgs = sorted(str(o) for s, p, o in got if p == ERR_MSG)
    if msgs != sorted(errors) or len(nodes) != len(errors) or any(len([1 for t in got if t[0] == n]) != 2 for n in nodes):
        out.append(Finding("errors", "recorded errors %s, written %s on %d nodes" % (sorted(errors), msgs, len(nodes))))
    for e in log:
        if e[0] in ("one_time_rules", "post_process"):
            if not snap[e[0]] <= e[1]:
                out.append(Finding("flush", "before %s the graph lacked %s" % (e[0], sorted(map(str, snap[e[0]] - e[1]))[:2])))
    cycles = [e for e in log if e[0] == "rules"]
    for k, e in enumerate(cycles):
        if e[1] != k + 1:
            out.append(Finding("cycle", "cycle %d has number %d" % (k + 1, e[1])))
    if cycles and not snap["post_process"] <= set(cycles[-1][2]):
        out.append(Finding("pass", "the last pass did not cover %s" % sorted(map(str, snap["post_process"] - set(cycles[-1][2])))[:2]))
    if len(cycles) > max(cyc, 1):
        out.append(Finding("cycles", "%d cycles, %d suffice" % (len(cycles), cyc)))
    return out
