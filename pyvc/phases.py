"""The phases of a closure class other than the rules (pre_process, axioms, one-time rules, post_process) and its constructor:
what they add, remove, store and record, for an arbitrary graph and object state."""
import z3
from .vc import *  # noqa: F401,F403
from . import vc, spec, sym, axioms, proofs, concrete, driver
from .exec import Cont, Content, Piece, GLog, GraphRef, Exit, State
from .interp import Dead

PHASES = ["pre_process", "add_axioms", "add_d_axioms", "one_time_rules", "post_process"]
X3 = [z3.Const("x_" + n, V) for n in "spo"]
has_bnodes = z3.Function("has_bnodes", V, B)
f_dt = z3.Function("datatype", V, V)
NONE = const(None)
C = lambda t: const(t)


class Phase:
    def __init__(self, key, name, contracts=None):
        self.key, self.name = key, name
        cls = concrete.CLASS[key] if isinstance(key, str) else key
        self.label = "%s.%s" % (cls.__name__, name)
        self.run = r = Run(cls, contracts)
        st = r.state
        self.before = dict(st.heap[r.me.loc])
        self.entry = [c for k, c in r.init_state.ctx if k == "c"]
        self.dead = False
        try:
            r.call(name, [])
        except Dead:
            self.dead = True
        self.st, self.ex, self.me = st, r.ex, r.me
        self.attrs = st.heap[r.me.loc]
        at, em = driver.conts(st, r.me)
        self.ops, self.stored, self.errors = st.heap["graph"].ops, st.heap[at.loc].pieces, st.heap[em.loc].pieces
        self.raises, self.facts = all_raises(r.ex), r.ex.facts

    def has(self, pieces, vals):
        return has(pieces, vals)

    def added(self, t):
        return has([op[2] for op in self.ops if op[0] == "add" and op[1] == "D"], t)

    def removed(self, t, part="D"):
        return has([op[2] for op in self.ops if op[0] == "remove" and op[1] == part], t)

    def D_after(self, t):
        return self.ex._part(self.st, "D", t)

    def emitted(self, t):
        """added directly or stored"""
        return Or(self.added(t), has(self.stored, t))


def all_raises(ex):
    """exceptions that may leave: (class, state, where)"""
    return list(ex.raises) + [(e.value, e.st, "raise") for e in ex.pending if e.kind == "raise"]


_cache = {}


def phase(key, name):
    k = (key if isinstance(key, str) else id(key), name)
    if k not in _cache:
        _cache[k] = Phase(key, name)
    return _cache[k]


_rules = {}


def rules_run(key):
    if key not in _rules:
        _rules[key] = RulesRun(concrete.CLASS[key])
    return _rules[key]


def has(pieces, vals):
    """one of the pieces has this value"""
    out = []
    for p in pieces:
        v = p.value if isinstance(p.value, tuple) else (p.value,)
        out.append(Exists(p.binders, And(*(list(p.conds) + [Eq(a, b) for a, b in zip(v, vals)]))))
    return Or(*out)


def contents(st, c):
    """elements of a container (or of a lifted table) as pieces; None when it is something else"""
    if isinstance(c, Cont):
        return list(st.heap[c.loc].pieces)
    return None


class Checker:
    """collects obligations; solver ones run in parallel"""
    def __init__(self, led, prefix=""):
        self.led, self.prefix, self.jobs = led, prefix, []

    def ok(self, name, b, detail=""):
        self.led.results.append(Result(self.prefix + name, "proved" if b else "failed", 0.0, "executor", "" if b else (str(detail)[:600] or "does not hold")))

    def prove(self, name, hyps, goal, facts=(), **kw):
        n = self.prefix + name
        self.jobs.append((n, lambda: prove(n, list(hyps), goal, facts=facts, **kw)))

    def consistent(self, ph):
        """vacuity guard: what a phase is entered with and the facts about its values must not prove false"""
        n = "%s%s: assumptions are consistent" % (self.prefix, ph.label)

        def job():
            s = z3.Solver()
            limit(s, 1500)
            fs = list(ph.entry) + list(ph.facts)
            s.add(*(vc.background(fs) + fs))
            r = s.check()
            return Result(n, "proved" if r != z3.unsat else "failed", 0.0, "z3", "" if r != z3.unsat else "the assumptions are contradictory")
        self.jobs.append((n, job))

    def done(self):
        proofs.run_jobs(self.led, self.jobs)
        self.jobs = []


def wrap(f):
    def g(led):
        f(led)
    return g


# ----- C09: frame ---------------------------------------------------------------------------------------------------
def is_graph(v, part):
    return isinstance(v, GraphRef) and v.part == part


def frame_ops(ck, label, ops, hyps, facts, trimming=False):
    for k, (what, part, piece) in enumerate(ops):
        if what == "add":
            ck.ok("%s: writes only to the destination (statement %d)" % (label, k), part == "D", "%s to %s: %s" % (what, part, piece))
        elif trimming:
            ck.ok("%s: removes from the destination or the graph only (statement %d)" % (label, k), part in ("D", "G"), part)
        else:
            ck.ok("%s: removes from the destination or the graph only (statement %d)" % (label, k), part in ("D", "G"), part)
            ck.prove("%s: removes only triples with a blank predicate (statement %d)" % (label, k), list(piece.conds) + hyps, isBN(piece.value[1]), facts)


def frame(keys):
    def g(led):
        ck = Checker(led)
        b = z3.Const("bn_x", V)
        inv = [z3.ForAll([b], z3.Implies(has_bnodes(b), isBN(b)), patterns=[has_bnodes(b)])]
        for key in keys:
            cls = concrete.CLASS[key]
            runs = [(phase(key, n).label, phase(key, n).st, phase(key, n).before, phase(key, n).ops, phase(key, n).facts, phase(key, n).me, phase(key, n).ex) for n in PHASES]
            r = rules_run(key)
            runs.append(("%s.rules" % cls.__name__, r.state, None, r.graph_ops, r.ex.facts, r.me, r.ex))
            for label, st, before, ops, facts, me, ex in runs:
                led.used(ex)
                frame_ops(ck, label, ops, inv, facts, trimming=(key == "TRIM" and label.endswith("post_process")))
                a = st.heap[me.loc]
                ck.ok("%s: graph and destination stay the same objects" % label, is_graph(a.get("graph"), "G") and is_graph(a.get("destination"), "D"), (a.get("graph"), a.get("destination")))
                c = a.get("bnodes")
                if c is None and key == "RDFS":
                    continue
                ps = contents(st, c)
                ck.ok("%s: the list of blank nodes is kept" % label, ps is not None, c)
                for p in ps or []:
                    if p.origin == "entry": continue
                    ck.prove("%s: only blank nodes are collected for removal" % label, list(p.conds), isBN(p.value), facts)
            # the constructor
            for dest, ds, want in (("D", False, "D"), ("D", True, "D"), (None, False, "G"), (None, True, "D"), ("name", True, "N"), ("name", False, None), (GraphRef("X"), False, None), (GraphRef("X"), True, None)):
                nm = {"D": "a graph of the same store", None: "no destination", "name": "a name"}.get(dest if not isinstance(dest, GraphRef) else 0, "a graph of another store")
                label = "%s(%s, %s)" % (cls.__name__, "dataset" if ds else "graph", nm)
                c = Ctor(cls, dest, ds)
                ck.ok("%s: nothing is written" % label, not c.ops, c.ops)
                if want is None:
                    ck.ok("%s: is refused with ValueError" % label, c.dead and bool(c.raises) and all(isinstance(x[0], type) and issubclass(x[0], ValueError) for x in c.raises), [x[0] for x in c.raises])
                    continue
                ck.ok("%s: is accepted" % label, not c.dead, [x[0] for x in c.raises])
                if c.dead: continue
                ck.ok("%s: the graph is the given one" % label, is_graph(c.attrs.get("graph"), "G"), c.attrs.get("graph"))
                ck.ok("%s: the destination is the right graph" % label, is_graph(c.attrs.get("destination"), want), c.attrs.get("destination"))
                for exc, s, where in c.raises:
                    ck.prove("%s: raises nothing (%s)" % (label, where), s.conds_since(0), FALSE, c.ex.facts)
                if want == "N":
                    names = [e for e in c.ex.log if e[0] == "graph.get_context"]
                    ck.ok("%s: the destination is the graph of that name" % label, bool(names) and all(e[1][1] == "name" for e in names), names)
                bn = c.attrs.get("bnodes")
                if bn is not None:
                    ck.ok("%s: no blank nodes collected yet" % label, contents(c.st, bn) == [], bn)
        ck.done()
    return g


class Ctor:
    """the constructor for one shape of its arguments"""
    def __init__(self, cls, dest, dataset):
        self.r = r = Run.__new__(Run)
        self.dead = False
        try:
            r.__init__(cls, destination=dest, dataset=dataset)
        except Dead:
            self.dead = True
        self.ex = r.ex
        self.raises = all_raises(r.ex)
        self.st = getattr(r, "init_state", None)
        if self.dead:
            self.ops = [op for x in self.raises for op in x[1].heap["graph"].ops]
            self.attrs = {}
        else:
            self.ops = self.st.heap["graph"].ops
            self.attrs = self.st.heap[r.me.loc]


# ----- C10: no generalized triples --------------------------------------------------------------------------------
def occurs(t):
    """a term occurs in the graph"""
    a, b = z3.Const("oc_a", V), z3.Const("oc_b", V)
    return Or(Exists([a, b], U_(t, a, b)), Exists([a, b], U_(a, t, b)), Exists([a, b], U_(a, b, t)))


def generalized(keys, rdfs_only=False):
    def g(led):
        ck = Checker(led)
        b = z3.Const("bn_x", V)
        for key in keys:
            cls = concrete.CLASS[key]
            for n in PHASES:
                ph = phase(key, n)
                led.used(ph.ex)
                ck.consistent(ph)
                # what is added without store_triple (of which the contract is proved with the driver)
                for k, (what, part, piece) in enumerate(ph.ops):
                    if what == "add":
                        ck.prove("%s: adds no literal as predicate (statement %d)" % (ph.label, k), [c for c in piece.conds], Not(isLit(piece.value[1])), ph.facts)
                if key == "RDFS":
                    continue
                for k, p in enumerate([op[2] for op in ph.ops if op[0] == "add"] + list(ph.stored)):
                    ck.prove("%s: a blank predicate comes from the graph (%d)" % (ph.label, k), list(p.conds) + [isBN(p.value[1])], occurs(p.value[1]), ph.facts)
            r = rules_run(key)
            led.used(r.ex)
            nm = cls.__name__
            ck.ok("%s.rules: adds only through store_triple" % nm, not any(op[0] == "add" for op in r.graph_ops), r.graph_ops)
            if key == "RDFS":
                continue
            # the blank nodes of the graph are collected in the first cycle
            ps = contents(r.state, r.state.heap[r.me.loc].get("bnodes")) or []
            for t, n in zip(r.t, ("subject", "predicate", "object")):
                ck.prove("%s.rules: a blank %s is collected in cycle 1" % (nm, n), r.state.conds_since(0) + [r.cycle == 1, isBN(t)], has(ps, (t,)), r.ex.facts)
            ck.prove("%s.rules: what was collected stays" % nm, r.state.conds_since(0) + [has_bnodes(b)], has(ps, (b,)), r.ex.facts)
            for k, p in enumerate(r.emissions):
                t = p.value
                ck.prove("%s.rules: a blank predicate comes from the graph (%d)" % (nm, k), list(p.conds) + [isBN(t[1])], occurs(t[1]), r.ex.facts + [list_items_occur()])
            for n in PHASES[:-1]:
                ph = phase(key, n)
                c = contents(ph.st, ph.attrs.get("bnodes"))
                ck.ok("%s: leaves the collected blank nodes alone" % ph.label, c is not None and len(c) == 1 and c[0].origin == "entry", c)
            # they are removed at the end
            ph = phase(key, "post_process")
            ck.prove("%s: no blank predicate is left in the destination" % ph.label, [has_bnodes(X3[1]), ph.D_after(X3)] + ph.st.conds_since(0), FALSE, ph.facts)
            ck.prove("%s: no blank predicate is left in the graph" % ph.label, [has_bnodes(X3[1]), ph.ex.g_contains(ph.st, "G", tuple(X3))] + ph.st.conds_since(0), FALSE, ph.facts)
            for k, p in enumerate([q for q in ph.stored] + [op[2] for op in ph.ops if op[0] == "add"]):
                ck.prove("%s: stores no blank predicate (%d)" % (ph.label, k), list(p.conds) + [isBN(p.value[1])], FALSE, ph.facts)
        ck.done()
    return g


def list_items_occur():
    """members of lists (as Graph.items yields them) are objects of rdf:first"""
    l, i = z3.Const("li_l", V), z3.Const("li_i", I)
    n = z3.Function("list_node", V, I, V)
    return z3.ForAll([l, i], z3.Implies(z3.And(i >= 0, i < llen(l)), U_(n(l, i), const(spec.RDF.first), litem(l, i))), patterns=[litem(l, i)])


# ----- C11: axioms ------------------------------------------------------------------------------------------------------
def cons_rows(rows):
    return sym.table(list(dict.fromkeys(rows)))


def container_axiom(x, imax):
    """x is one of the axioms about rdf:_1 .. rdf:_imax"""
    i = z3.Const("ci_i", I)
    uri = z3.Function("uri:%s_%%d" % spec.NS["rdf"], I, V)
    shapes = [(spec.RDF.type, spec.RDF.Property), (spec.RDFS.domain, spec.RDFS.Resource), (spec.RDFS.range, spec.RDFS.Resource), (spec.RDF.type, spec.RDFS.ContainerMembershipProperty)]
    return Or(*[z3.Exists([i], z3.And(1 <= i, i <= imax, x[0] == uri(i), x[1] == C(p), x[2] == C(o))) for p, o in shapes])


def requested_axioms(keys):
    def g(led):
        ck = Checker(led)
        for key in keys:
            cls = concrete.CLASS[key]
            ph = phase(key, "add_axioms")
            dph = phase(key, "add_d_axioms")
            led.used(ph.ex)
            ck.consistent(ph)
            led.used(dph.ex)
            rd = TRUE if key in ("RDFS", "BOTH") else (ph.run.rdfs if key in ("EXT", "TRIM") else FALSE)
            rdd = TRUE if key in ("RDFS", "BOTH") else (dph.run.rdfs if key in ("EXT", "TRIM") else FALSE)
            rows = list(axioms.OWL) if key != "RDFS" else []
            if key in ("EXT", "TRIM"): rows += spec.SELF_AXIOMS
            imax = ph.ex.to_z3(ph.before["IMaxNum"]) if "IMaxNum" in ph.before else z3.IntVal(0)
            want = And(rd, Or(cons_rows(axioms.RDFS).has(*X3), container_axiom(X3, imax)))
            if rows:
                want = Or(want, cons_rows(rows).has(*X3))
            self_conds = ph.st.conds_since(0)
            i = z3.Const("ci_i", I)
            uri = z3.Function("uri:%s_%%d" % spec.NS["rdf"], I, V)
            check_exact(ck, ph, want, rd, [z3.ForAll([i], isURI(uri(i)), patterns=[uri(i)])])
            rows = list(axioms.OWL_D) if key != "RDFS" else []
            a, b = z3.Const("lit_s", V), z3.Const("lit_p", V)
            lits = Exists([a, b], And(U_(a, b, X3[0]), isLit(X3[0]), Not(Eq(f_dt(X3[0]), NONE)), Eq(X3[1], TYPE), Eq(X3[2], f_dt(X3[0]))))
            want = And(rdd, Or(cons_rows(axioms.RDFS_D).has(*X3), lits))
            if rows:
                want = Or(want, cons_rows(rows).has(*X3))
            check_exact(ck, dph, want, rdd)
            # IMaxNum: the largest container index in the graph
            s, p, o = [z3.Const("im_" + n, V) for n in "spo"]
            init = ph.run.init_facts
            ck.prove("%s(): IMaxNum is not smaller than any container index" % cls.__name__, init + [U_(s, p, o), cidx(p) >= 0], cidx(p) <= imax, ph.facts)
            ck.prove("%s(): IMaxNum is the index of a predicate of the graph, or 0" % cls.__name__, init + [imax != 0, z3.ForAll([s, p, o], z3.Implies(U_(s, p, o), z3.Not(z3.And(cidx(p) >= 0, cidx(p) == imax))))], FALSE, ph.facts)
            # the other phases add no axioms of their own: they only store what the rules entail (C02, C06, C07)
            for n in ("pre_process",):
                q = phase(key, n)
                ck.ok("%s: adds nothing" % q.label, not q.ops and not q.stored, (q.ops, q.stored))
        ck.done()
    return g


def check_exact(ck, ph, want, flag, known=()):
    hy = ph.entry + list(known)
    ck.ok("%s: stores and records nothing, removes nothing" % ph.label, not ph.stored and not ph.errors and all(op[0] == "add" for op in ph.ops), (ph.stored, ph.errors))
    ck.ok("%s: ends normally" % ph.label, not ph.dead and not ph.raises, ph.raises)
    for k, op in enumerate(ph.ops):
        p = op[2]
        w = subst_all(want, list(zip(X3, p.value)))
        ck.prove("%s: adds only its axioms (statement %d)" % (ph.label, k), hy + list(p.conds), w, ph.facts)
    alts = list(want.children()) if z3.is_or(want) else [want]
    flat = []
    for a in alts:
        if z3.is_and(a) and any(z3.is_or(c) for c in a.children()):
            ors = [c for c in a.children() if z3.is_or(c)][0]
            rest = [c for c in a.children() if not c.eq(ors)]
            flat += [And(*(rest + [c])) for c in ors.children()]
        else:
            flat.append(a)
    got = ph.added(X3)
    for k, a in enumerate(flat):
        ck.prove("%s: adds all its axioms (group %d)" % (ph.label, k), hy + [a, Not(got)], FALSE, ph.facts)


def subst_all(f, pairs):
    return z3.substitute(f, *pairs)


# ----- C16: trimming ------------------------------------------------------------------------------------------------------
def supported_extended(dt):
    d = z3.Const("rd_x", V)
    return Or(cons_rows([(x,) for x in spec.SUPPORTED]).has(dt), Eq(dt, C(concrete.RATIONAL)), Exists([d], And(is_RD(d), Eq(rd_datatype(d), dt))))


def documented_trims(t, typed):
    """the triples the trimming class documents as removed; typed(dt): the graph types something with dt"""
    s, p, o = t
    Rr, Oo = spec.RDFS, spec.OWL
    SC = C(Rr.subClassOf)
    idle = lambda d: And(supported_extended(d), Not(typed(d)))
    return Or(And(Eq(s, o), Or(*[Eq(p, C(x)) for x in (Oo.sameAs, Oo.equivalentClass, Rr.subClassOf, Rr.subPropertyOf)])),
              And(Eq(p, SC), Or(Eq(o, C(Oo.Thing)), Eq(o, C(Rr.Resource)))),
              And(Eq(p, TYPE), Eq(o, C(Rr.Resource))),
              And(Eq(s, C(Oo.Nothing)), Eq(p, SC)),
              And(Eq(p, TYPE), Or(Eq(o, C(Rr.Datatype)), Eq(o, C(Oo.DataRange))), idle(s)),
              And(Eq(p, C(Oo.disjointWith)), Or(idle(s), idle(o))),
              cons_rows([(a, spec.RDF.type, Oo.AnnotationProperty) for a in spec.ANNOTATION]).has(s, p, o),
              cons_rows(axioms.TRIMMED).has(s, p, o))


def trimming(led):
    ck = Checker(led)
    ext, trim = concrete.CLASS["EXT"], concrete.CLASS["TRIM"]
    # the trimming class is the extension class with another post_process
    own = lambda cls, n: next((c.__dict__[n] for c in cls.__mro__ if n in c.__dict__), None)
    ck.ok("the trimming class is an extension class", issubclass(trim, ext), trim.__mro__)
    differ = [n for n in dir(ext) if not n.startswith("__") and n != "post_process" and own(ext, n) is not own(trim, n)]
    methods = [n for n in differ if callable(own(ext, n)) or callable(own(trim, n))]
    data = [n for n in differ if n not in methods]
    ck.ok("the trimming class changes no class attribute", all(own(ext, n) == own(trim, n) for n in data), data)
    for n in PHASES[:-1]:
        a, b = phase("EXT", n), phase("TRIM", n)
        led.used(a.ex)
        led.used(b.ex)
        if not methods:
            continue
        for what, f in (("adds", lambda ph: ph.added(X3)), ("stores", lambda ph: ph.has(ph.stored, X3)), ("leaves", lambda ph: ph.D_after(X3))):
            ck.prove("%s %s no less than the extension class" % (b.label, what), a.entry + b.entry + [f(a), Not(f(b))], FALSE, a.facts + b.facts)
            ck.prove("%s %s no more than the extension class" % (b.label, what), a.entry + b.entry + [f(b), Not(f(a))], FALSE, a.facts + b.facts)
        ck.prove("%s records errors under the same conditions" % b.label, a.entry + b.entry + [some(a.errors) != some(b.errors)], FALSE, a.facts + b.facts)
    if methods:
        a, b = rules_run("EXT"), rules_run("TRIM")
        same = z3.And(a.cycle == b.cycle, a.rdfs == b.rdfs, *[x == y for x, y in zip(a.t, b.t)])
        for k, (p, q) in enumerate(((a, b), (b, a))):
            ck.prove("rules() of the two classes stores the same (%d)" % k, [same, has(p.emissions, X3), Not(has(q.emissions, X3))], FALSE, a.ex.facts + b.ex.facts)
            ck.prove("rules() of the two classes records the same (%d)" % k, [same, some(p.errors), Not(some(q.errors))], FALSE, a.ex.facts + b.ex.facts)
    # constructors: the same attributes
    for dest, ds in (("D", False), (None, False), (None, True), ("name", True)):
        a, b = Ctor(ext, dest, ds), Ctor(trim, dest, ds)
        label = "%s(%s, %s)" % (trim.__name__, "dataset" if ds else "graph", dest)
        ck.ok("%s: is accepted as by the extension class" % label, a.dead == b.dead, (a.dead, b.dead))
        for n in ("graph", "destination", "axioms", "daxioms", "rdfs"):
            x, y = a.attrs.get(n), b.attrs.get(n)
            ck.ok("%s: attribute %s as in the extension class" % (label, n), (x.part == y.part if isinstance(x, GraphRef) and isinstance(y, GraphRef) else str(x) == str(y)), (x, y))
        for n in ("added_triples", "error_messages", "restricted_datatypes", "bnodes"):
            x, y = contents(a.st, a.attrs.get(n)), contents(b.st, b.attrs.get(n))
            ck.ok("%s: attribute %s as in the extension class" % (label, n), x is not None and y is not None and len(x) == len(y), (x, y))
    # post_process
    a, b = phase("EXT", "post_process"), phase("TRIM", "post_process")
    led.used(a.ex)
    led.used(b.ex)
    ck.ok("%s: stores and records nothing, adds nothing" % b.label, not b.stored and not b.errors and all(op[0] == "remove" for op in b.ops), b.ops)
    ck.ok("%s: ends normally" % b.label, not b.dead, b.raises)
    for exc, s, where in b.raises:
        ck.prove("%s: raises nothing (%s)" % (b.label, where), b.entry + s.conds_since(0), FALSE, b.facts)
    x = z3.Const("typed_x", V)
    typed = lambda d: Exists([x], a.ex.g_contains(a.st, "G", (x, TYPE, d)))
    facts = a.facts + b.facts
    doc = documented_trims(X3, typed)
    after, before = b.D_after(X3), a.D_after(X3)
    hy = a.entry + b.entry
    for k, d in enumerate(doc.children()):
        for i, e in enumerate(d.children() if z3.is_or(d) else [d]):
            ck.prove("%s: a documented triple is removed (%d.%d)" % (b.label, k, i), hy + [e, after], FALSE, facts)
    ck.prove("%s: every other triple stays" % b.label, hy + [before, Not(after), Not(doc)], FALSE, facts)
    ck.prove("%s: adds nothing" % b.label, hy + [after, Not(before)], FALSE, facts)
    # the graph's other part: nothing is removed there that the extension class keeps
    for k, (what, part, piece) in enumerate(b.ops):
        if part == "G":
            ck.prove("%s: removes from the rest of the graph only what the extension class removes (%d)" % (b.label, k),
                     hy + list(piece.conds) + [a.ex.g_contains(a.st, "G", tuple(piece.value))], FALSE, facts)
    ck.done()


def some(pieces):
    return Or(*[Exists(p.binders, And(*p.conds)) for p in pieces])


# ----- C18: equal-valued literals ----------------------------------------------------------------------------------------
f_val = z3.Function("value", V, V)


def same_literal(a, b):
    """equal converted values or, without values, the same literal"""
    return Or(Eq(a, b), And(Not(Eq(f_val(a), NONE)), Not(Eq(f_val(b), NONE)), Eq(f_val(a), f_val(b))))


def exchange(led):
    ck = Checker(led)
    ph = phase("RDFS", "one_time_rules")
    led.used(ph.ex)
    ck.consistent(ph)
    s, p, a, b, s2, p2 = [z3.Const("ex_" + n, V) for n in ("s", "p", "a", "b", "s2", "p2")]
    ck.ok("%s: ends normally" % ph.label, not ph.dead, ph.raises)
    for exc, st, where in ph.raises:
        ck.prove("%s: raises nothing (%s)" % (ph.label, where), ph.entry + st.conds_since(0), FALSE, ph.facts)
    ck.ok("%s: records nothing, removes nothing" % ph.label, not ph.errors and all(op[0] == "add" for op in ph.ops), (ph.errors, ph.ops))
    hy = [U_(s, p, a), isLit(a), U_(s2, p2, b), isLit(b), same_literal(a, b)]
    ck.prove("%s: every triple with a literal object is repeated with each literal of the same value" % ph.label,
             hy + [Not(U_(s, p, b)), Not(ph.emitted((s, p, b)))], FALSE, ph.facts)
    want = Or(Exists([a], And(U_(X3[0], X3[1], a), isLit(a), Exists([s2, p2], U_(s2, p2, X3[2])), isLit(X3[2]), same_literal(a, X3[2]))), U_(*X3))
    for k, q in enumerate([op[2] for op in ph.ops if op[0] == "add"] + list(ph.stored)):
        ck.prove("%s: repeats triples only with literals of the same value (%d)" % (ph.label, k), ph.entry + list(q.conds), subst_all(want, list(zip(X3, q.value))), ph.facts)
    ck.done()
