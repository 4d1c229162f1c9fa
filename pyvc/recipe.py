"""From the conditions under which the code stores a triple or records an error: graphs that meet them (for the search of a failing
input; bounded, never counted as proof)."""
import json
import z3
from . import sym
from .sym import is_const, concrete_of
from .concrete import enc, dec, EX
from rdflib import URIRef, BNode, Literal
from rdflib.namespace import RDF, XSD

MARK = "RECIPE "


class Recipe:
    def __init__(self):
        self.triples, self.eq, self.ne, self.kind, self.value, self.items, self.paths, self.every = [], [], [], {}, {}, {}, [], []

    def copy(self):
        r = Recipe()
        r.triples, r.eq, r.ne, r.kind, r.value = list(self.triples), list(self.eq), list(self.ne), dict(self.kind), dict(self.value)
        r.items, r.paths, r.every = {k: list(v) for k, v in self.items.items()}, list(self.paths), list(self.every)
        return r

    def json(self):
        return {"triples": self.triples, "eq": self.eq, "ne": self.ne, "kind": self.kind, "value": self.value, "items": self.items, "paths": self.paths, "every": self.every}


def plain(x):
    return isinstance(x, (URIRef, BNode, Literal))


def term(e, r):
    if is_const(e):
        x = concrete_of(e)
        return ["c", enc(x)] if plain(x) else ["v", str(x)]
    if z3.is_app(e) and e.decl().name() == "litem":
        l = term(e.arg(0), r)
        k = "%s[%s]" % (l[1], str(e.arg(1)))
        if l[0] == "v":
            r.items.setdefault(l[1], [])
            if k not in r.items[l[1]]: r.items[l[1]].append(k)
        return ["v", k]
    return ["v", str(e)[:80]]


def walk(e, rs, positive=True, depth=0):
    """the recipes of rs with the condition e"""
    if depth > 40 or len(rs) > 24: return rs
    if z3.is_quantifier(e):
        if e.is_forall() == positive:
            return every(e, rs) if positive else rs
        vs = [z3.FreshConst(e.var_sort(k), e.var_name(k)) for k in range(e.num_vars())]
        return walk(z3.substitute_vars(e.body(), *reversed(vs)), rs, positive, depth + 1)
    if not z3.is_app(e): return rs
    k, n = e.decl().kind(), e.decl().name()
    if k == z3.Z3_OP_NOT: return walk(e.arg(0), rs, not positive, depth + 1)
    if k == z3.Z3_OP_IMPLIES: return walk(z3.Or(z3.Not(e.arg(0)), e.arg(1)), rs, positive, depth + 1)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        if (k == z3.Z3_OP_AND) == positive:
            for c in e.children(): rs = walk(c, rs, positive, depth + 1)
            return rs
        return [x for c in e.children() for x in walk(c, [r.copy() for r in rs], positive, depth + 1)][:24]
    for r in rs:
        if n in ("U", "H") and positive: r.triples.append([term(a, r) for a in e.children()])
        elif k == z3.Z3_OP_EQ and e.arg(0).sort() == sym.V:
            a, b = e.children()
            for a, b in ((a, b), (b, a)):
                if z3.is_app(a) and a.decl().name() == "value" and is_const(b) and positive:
                    r.value[term(a.arg(0), r)[1]] = str(concrete_of(b))
                    break
            else:
                (r.eq if positive else r.ne).append([term(e.arg(0), r), term(e.arg(1), r)])
        elif n in ("isLit", "isURI", "isBN"):
            t = term(e.arg(0), r)
            if t[0] == "v" and positive: r.kind[t[1]] = n
        elif n in ("Reach", "ReachH") and positive:
            a = e.children()
            r.paths.append([term(a[0], r), term(a[3], r), term(a[4], r)])
    return rs


def every(e, rs):
    """for all k: ... holds for the members of a list"""
    vs = [z3.FreshConst(e.var_sort(k), "each") for k in range(e.num_vars())]
    body = z3.substitute_vars(e.body(), *reversed(vs))
    for r in rs:
        todo, seen = [body], 0
        while todo and seen < 200:
            x = todo.pop()
            seen += 1
            if z3.is_quantifier(x) or not z3.is_app(x): continue
            if x.decl().name() in ("U", "H"):
                pat, l = [], None
                for a in x.children():
                    if z3.is_app(a) and a.decl().name() == "litem" and not is_const(a) and any(a.arg(1).eq(v) for v in vs):
                        l = term(a.arg(0), r)
                        pat.append(["item"])
                    else:
                        pat.append(term(a, Recipe()))
                if l: r.every.append([l, pat])
            todo += x.children()
    return rs


def recipes(conds):
    rs = [Recipe()]
    for c in conds:
        rs = walk(c, rs)
    return [r.json() for r in rs if r.triples][:8]


def text(conds):
    try:
        s = json.dumps(recipes(conds))
    except Exception:
        return ""
    return MARK + s + " END "


def parse(detail):
    out = []
    while MARK in detail:
        a = detail.index(MARK) + len(MARK)
        b = detail.find(" END ", a)
        if b < 0: break
        try: out += json.loads(detail[a:b])
        except ValueError: pass
        detail = detail[b:]
    return out


def strip(detail):
    while MARK in detail:
        a = detail.index(MARK)
        b = detail.find(" END ", a)
        detail = detail[:a] + (detail[b + 5:] if b >= 0 else "")
    return detail


def build(r, rng):
    """triples meeting the recipe (as far as it goes)"""
    parent = {}

    def find(x):
        while parent.get(x, x) != x: x = parent[x]
        return x
    fixed, n = {}, [0]
    key = lambda t: t[1] if t[0] == "v" else "<%s>" % json.dumps(t[1])
    for t in [t for tr in r["triples"] for t in tr] + [t for p in r["eq"] + r["ne"] for t in p]:
        if t[0] == "c": fixed[key(t)] = dec(t[1])
    for a, b in r["eq"]:
        x, y = find(key(a)), find(key(b))
        if x != y: parent[x if y in fixed else y] = y if y in fixed else x
    subj, pred = set(), set()
    for tr in r["triples"]:
        subj.add(find(key(tr[0]))); pred.add(find(key(tr[1])))
    terms, triples = {}, []
    lists = {find(l): [find(i) for i in its] for l, its in r["items"].items()}
    for l, _ in r["every"]: lists.setdefault(find(key(l)), [])
    for l, _, _ in r["paths"]: lists.setdefault(find(key(l)), [])

    def fresh(kind="u"):
        n[0] += 1
        return BNode("r%d" % n[0]) if kind == "b" else URIRef(EX + "y%d" % n[0])

    def get(k):
        k = find(k)
        if k in fixed: return fixed[k]
        if k not in terms:
            if k in r["value"]: terms[k] = Literal(r["value"][k], datatype=rng.choice([XSD.integer, XSD.nonNegativeInteger]))
            elif k in lists: terms[k] = lst(k)
            elif r["kind"].get(k) == "isLit": terms[k] = rng.choice([Literal("1", datatype=XSD.integer), Literal("a"), Literal("x", datatype=XSD.string)])
            elif r["kind"].get(k) == "isBN": terms[k] = fresh("b")
            elif k in pred: terms[k] = fresh()
            elif k not in subj and rng.random() < .2: terms[k] = Literal("1", datatype=XSD.integer)
            elif rng.random() < .2: terms[k] = fresh("b")
            elif terms and rng.random() < .1: terms[k] = rng.choice([t for t in terms.values()])
            else: terms[k] = fresh()
        return terms[k]

    def lst(k):
        items = [get(i) for i in lists[k]]
        while len(items) < max(1, rng.choice([0, 1, 2, 2, 3])): items.insert(rng.randrange(len(items) + 1), fresh())
        if rng.random() < .5: rng.shuffle(items)
        members[k] = items
        nodes = [fresh(rng.choice("bu")) for _ in items]
        for j, (a, x) in enumerate(zip(nodes, items)):
            triples.append((a, RDF.first, x))
            triples.append((a, RDF.rest, nodes[j + 1] if j + 1 < len(nodes) else RDF.nil))
        return nodes[0]
    members = {}
    for tr in r["triples"]:
        triples.append(tuple(get(key(t)) for t in tr))
    for l, pat in r["every"]:
        k = find(key(l))
        get(k)
        for x in members.get(k, ()):
            t = tuple(x if p[0] == "item" else get(key(p)) for p in pat)
            triples.append(t)
    for l, a, b in r["paths"]:
        k = find(key(l))
        get(k)
        ps = members.get(k, ())
        nodes = [get(key(a))] + [fresh() for _ in ps[1:]] + [get(key(b))]
        triples += [(nodes[j], p, nodes[j + 1]) for j, p in enumerate(ps)]
    return [t for t in triples if not isinstance(t[1], Literal)]
