"""The one-time rules: datatype typing, hierarchy, ill-typed literals (C12) and the soundness of what they store (C02, C06, C07)."""
import z3
from .vc import *  # noqa: F401,F403
from . import vc, spec, sym, axioms, proofs, concrete
from .phases import (phase, has, some, Checker, cons_rows, subst_all, supported_extended, same_literal, occurs, f_dt, f_val, NONE, C, X3)
from .exec import Piece, f_raises
from .proofs import norm_piece

f_toPython = z3.Function("toPython", V, V)
f_str = z3.Function("str", V, V)
DT = spec.RDFS.Datatype
HIER = lambda a, b: cons_rows(spec.HIERARCHY).has(a, b)
SUPP = lambda d: cons_rows([(x,) for x in spec.SUPPORTED]).has(d)


def literal_object(l):
    a, b = z3.Const("lo_s", V), z3.Const("lo_p", V)
    return And(isLit(l), Exists([a, b], U_(a, b, l)))


def supported(key, d):
    return supported_extended(d) if key in ("EXT", "TRIM") else SUPP(d)


def h_axioms(key):
    """H: a graph that contains the input and is closed under the rules and axioms that one-time rules may draw on"""
    x, y, z, p, s = [z3.Const("h_" + n, V) for n in ("x", "y", "z", "p", "s")]
    SA = C(spec.OWL.sameAs)
    q = lambda vs, a, c, pat: z3.ForAll(vs, z3.Implies(a, c), patterns=pat)
    out = [q([x, p, y], U_(x, p, y), H_(x, p, y), [U_(x, p, y)])]
    if key == "RDFS":
        # exchange of object literals of the same value
        out.append(q([x, p, y, z, s, SA_P], z3.And(H_(x, p, y), isLit(y), isLit(z), U_(s, SA_P, z), same_literal(y, z)), H_(x, p, z), [z3.MultiPattern(H_(x, p, y), U_(s, SA_P, z))]))
        return out
    rows = [(spec.OWL.Thing, spec.RDF.type, spec.OWL.Class), (spec.OWL.Nothing, spec.RDF.type, spec.OWL.Class)] + \
        [(a, spec.RDF.type, spec.OWL.AnnotationProperty) for a in spec.ANNOTATION] + [(d, spec.RDF.type, DT) for d in spec.SUPPORTED] + list(concrete.DISJOINT)
    if key != "OWLRL": rows += list(spec.BINDING)
    if key in ("EXT", "TRIM"): rows.append((concrete.RATIONAL, spec.RDF.type, DT))
    t = cons_rows(rows)
    out.append(q([x, p, y], t.has(x, p, y), H_(x, p, y), [t.has(x, p, y)]))
    out += [H_(*[C(v) for v in r]) for r in rows]
    out.append(q([x, y], H_(x, SA, y), H_(y, SA, x), [H_(x, SA, y)]))
    out.append(q([x, y, p, z], z3.And(H_(x, SA, y), H_(x, p, z)), H_(y, p, z), [z3.MultiPattern(H_(x, SA, y), H_(x, p, z))]))
    out.append(q([s, p, x], z3.And(U_(s, p, x), isLit(x), supported(key, f_dt(x))), H_(x, TYPE, f_dt(x)), [z3.MultiPattern(U_(s, p, x), isLit(x))]))
    out.append(q([x, y, z], z3.And(H_(x, TYPE, y), HIER(y, z)), H_(x, TYPE, z), [z3.MultiPattern(H_(x, TYPE, y), HIER(y, z))]))
    if key in ("EXT", "TRIM"):
        d = z3.Const("h_d", V)
        dec, rat = C(spec.XSD.decimal), C(concrete.RATIONAL)
        out.append(q([x], H_(x, TYPE, dec), H_(x, TYPE, rat), [H_(x, TYPE, dec)]))
        out.append(q([d], is_RD(d), z3.And(H_(rd_datatype(d), TYPE, C(DT)), SUPP(rd_base(d))), [is_RD(d)]))
        out.append(q([x, d], z3.And(is_RD(d), H_(x, TYPE, rd_datatype(d))), H_(x, TYPE, rd_base(d)), [z3.MultiPattern(is_RD(d), H_(x, TYPE, rd_datatype(d)))]))
        out.append(q([s, p, x, d], z3.And(is_RD(d), H_(s, p, x), isLit(x), H_(x, TYPE, rd_base(d)), rd_accepts(d, x), z3.Not(rd_raises(d, x))),
                     H_(x, TYPE, rd_datatype(d)), [z3.MultiPattern(is_RD(d), H_(s, p, x), isLit(x))]))
    out += cons_rows(spec.HIERARCHY).ground_axioms() + cons_rows([(v,) for v in spec.SUPPORTED]).ground_axioms()
    # members of the tables are supported datatypes, so are typed as datatypes
    out.append(q([x], SUPP(x), H_(x, TYPE, C(DT)), [SUPP(x)]))
    out.append(q([x, y], HIER(x, y), z3.And(SUPP(x), SUPP(y)), [HIER(x, y)]))
    return out


SA_P = z3.Const("h_p2", V)


def h_consistent(led):
    """the two convenience facts used above hold of the frozen tables"""
    s = set(spec.SUPPORTED)
    led.results.append(vc.Result("frozen tables: the types of the hierarchy are supported", "proved" if all(a in s and b in s for a, b in spec.HIERARCHY) else "failed", 0.0, "executor", ""))


def definition(f, facts):
    """body of the definitional fact of the predicate applied in f"""
    for x in facts:
        if z3.is_quantifier(x) and z3.is_eq(x.body()) and z3.is_app(x.body().arg(0)) and x.body().arg(0).decl().eq(f.decl()):
            args = [x.body().arg(0).arg(i) for i in range(x.body().arg(0).num_args())]
            if all(z3.is_var(a) for a in args):
                n = x.num_vars()
                vals = [None] * n
                for a, v in zip(args, f.children()):
                    vals[n - 1 - z3.get_var_index(a)] = v
                return z3.substitute_vars(x.body().arg(1), *reversed(vals))
    return None


def branches(p, facts, only_ops=True):
    """a piece of a compacted container as the alternatives of its definition"""
    ks = [c for c in p.conds if z3.is_app(c) and c.decl().name().startswith("K") and c.num_args() > 0]
    if len(ks) == 1 and len(p.conds) == 1:
        b = definition(ks[0], facts)
        if b is not None:
            alts = b.children() if z3.is_or(b) else [b]
            return [Piece(p.binders, [a], p.value, p.origin) for a in alts]
    return [p]


def havoc_invariants(ck, ph, key, hyps):
    """containers written in a loop that reads them: what earlier iterations wrote satisfies the invariant; proved for what an
    iteration writes, so by induction for everything"""
    inv = []
    goals = []
    at = ph.before
    for name, (loc, arity, K, where) in ph.ex.havocs.items():
        if isinstance(loc, tuple) or arity not in (2,):
            continue
        n = K.arity() - arity
        vs = [z3.Const("hv_%s_%d" % (name, i), K.domain(i)) for i in range(K.arity())]
        f = lambda k, v: z3.And(H_(k, TYPE, v), supported(key, v))
        inv.append(z3.ForAll(vs, z3.Implies(K(*vs), f(vs[n], vs[n + 1])), patterns=[K(*vs)]))
        goals.append((name, loc, where, f))
    final, dropped = [], set()
    for name, loc, where, f in goals:
        c = ph.st.heap.get(loc)
        ps = list(c.pieces) if c is not None else []
        for i, p in enumerate(ps):
            bs = branches(p, ph.facts)
            for j, q in enumerate(bs):
                ck.prove("%s: invariant of the loop at %s: entries are typed in every closed graph (%d.%d)" % (ph.label, where, i, j),
                         hyps + inv + list(q.conds), f(ph.ex.to_V(q.value[0]), ph.ex.to_V(q.value[1])), ph.facts)
            if len(bs) > 1:
                # from here on the contents are known by this lemma instead of their definition
                k = p.conds[0]
                final.append(z3.ForAll(list(p.binders), z3.Implies(k, f(ph.ex.to_V(p.value[0]), ph.ex.to_V(p.value[1]))), patterns=[k]))
                dropped.add(k.decl().name())
    return inv + final, [x for x in ph.facts if not any(defines(x, n) for n in dropped)]


def final_tables(ph):
    """predicates of the containers of pairs that a loop reads and writes"""
    out = []
    for name, (loc, arity, K, where) in ph.ex.havocs.items():
        if isinstance(loc, tuple) or arity != 2:
            continue
        c = ph.st.heap.get(loc)
        ps = list(c.pieces) if c is not None else []
        if len(ps) == 1 and len(ps[0].conds) == 1 and ps[0].conds[0].decl().name().startswith("K") and ps[0].conds[0].num_args() == 2:
            out.append(ps[0].conds[0].decl())
    return out


def defines(x, name):
    return z3.is_quantifier(x) and z3.is_eq(x.body()) and z3.is_app(x.body().arg(0)) and x.body().arg(0).decl().name() == name


def sound(keys):
    """everything the one-time rules store is in every closed graph"""
    def g(led):
        ck = Checker(led)
        h_consistent(led)
        for key in keys:
            ph = phase(key, "one_time_rules")
            led.used(ph.ex)
            ck.consistent(ph)
            hy = h_axioms(key)
            inv, facts = havoc_invariants(ck, ph, key, hy)
            k = 0
            lemmas = []
            for p in [op[2] for op in ph.ops if op[0] == "add"] + list(ph.stored):
                bs = branches(p, ph.facts)
                for q in bs:
                    ck.prove("%s: stores only what closed graphs contain (%d)" % (ph.label, k), hy + inv + lemmas + list(q.conds), H_(*[ph.ex.to_V(v) for v in q.value]), facts)
                    k += 1
                if len(bs) > 1:
                    # the triples added so far (flushed), for the rest of the phase
                    t = p.conds[0]
                    lemmas.append(z3.ForAll(list(p.binders), z3.Implies(t, H_(*[ph.ex.to_V(v) for v in p.value])), patterns=[t]))
                    facts = [x for x in facts if not defines(x, t.decl().name())]
        ck.done()
    return g


def typing(keys):
    """C12: what the one-time rules must store and record"""
    def g(led):
        ck = Checker(led)
        x, d, c, a, b = [z3.Const("dt_" + n, V) for n in ("x", "d", "c", "a", "b")]
        conv = {t: f for t, f in load_conv().items() if t in spec.SUPPORTED}
        for key in keys:
            if key == "TRIM" and inherited("EXT", "TRIM"):
                ck.ok("OWLRL_Extension_Trimming: the one-time rules are those of the extension class", True)
                continue
            ph = phase(key, "one_time_rules")
            led.used(ph.ex)
            ck.consistent(ph)
            lab = ph.label
            # the graph does not redefine a supported datatype as a restricted one
            rd = z3.Const("dt_rd", V)
            own = [z3.ForAll([rd], z3.Implies(is_RD(rd), z3.And(z3.Not(SUPP(rd_datatype(rd))), rd_datatype(rd) != C(concrete.RATIONAL))), patterns=[is_RD(rd)])] + \
                cons_rows([(v,) for v in spec.SUPPORTED]).ground_axioms()
            S = ph.emitted
            ck.ok("%s: ends normally, removes nothing" % lab, not ph.dead and all(op[0] == "add" for op in ph.ops), ph.ops)
            for n, (exc, st, where) in enumerate(ph.raises):
                ck.prove("%s: raises nothing (%s, %d)" % (lab, where, n), ph.entry + st.conds_since(0), FALSE, ph.facts)
            lit = [U_(a, b, x), isLit(x), SUPP(f_dt(x))]
            pr = lambda name, hyps, t: ck.prove("%s: %s" % (lab, name), ph.entry + own + hyps + [Not(S(t)), Not(U_(*t))], FALSE, ph.facts)
            pr("a literal is typed with its datatype", lit, (x, TYPE, f_dt(x)))
            pr("a literal is typed with the containing datatypes", lit + [HIER(f_dt(x), c)], (x, TYPE, c))
            pr("every supported datatype is a datatype", [SUPP(d)], (d, TYPE, C(DT)))
            # (literals of a supported datatype have their own datatype only)
            term = [Not(And(literal_object(x), supported(key, f_dt(x))))]
            if True:
                # lemma: the table of explicit types built before has every such statement
                hy, facts = [], ph.facts
                for k in final_tables(ph):
                    lem = prove("%s: every statement typing a term with a supported datatype is collected" % lab, ph.entry + own + term + [U_(x, TYPE, d), SUPP(d)], k(x, d), facts=ph.facts)
                    if lem.status == "proved":
                        led.results.append(lem)
                        hy.append(k)
                        facts = [f for f in facts if not defines(f, k.name())]
                        break
                pr0 = pr
                pr = lambda name, hyps, t: ck.prove("%s: %s" % (lab, name), ph.entry + own + hyps + [Not(S(t)), Not(U_(*t))], FALSE, facts)
                for t, u in spec.HIERARCHY:
                    if hy:
                        pr("a term typed with %s is typed with %s" % (t.n3(), u.n3()), [h(x, C(t)) for h in hy], (x, TYPE, C(u)))
                        continue
                    pr("a term typed with %s is typed with %s" % (t.n3(), u.n3()), term + [U_(x, TYPE, C(t))], (x, TYPE, C(u)))
            for n, (t, f) in enumerate(sorted(conv.items())):
                ck.prove("%s: a literal of %s its conversion rejects is reported" % (lab, t.n3()),
                         ph.entry + own + [U_(a, b, x), isLit(x), Eq(f_dt(x), C(t)), f_raises(C(f), f_str(x)), Not(some(ph.errors))], FALSE, ph.facts)
            for n, p in enumerate(ph.errors):
                good = And(U_(a, b, x), isLit(x), Or(And(SUPP(f_dt(x)), cons_rows(list(conv.items())).has(f_dt(x), d), f_raises(d, f_str(x))),
                                                     And(Not(SUPP(f_dt(x))), supported(key, f_dt(x)), f_raises(d, f_str(x)))))
                ck.prove("%s: an error is recorded only for a rejected literal (%d)" % (lab, n), ph.entry + own + list(p.conds), Exists([a, b, x, d], good), ph.facts)
        ck.done()
    return g


def load_conv():
    from . import load
    return dict(CONV)


from . import load as _load  # noqa: E402
CONV = dict(_load.DatatypeHandling.AltXSDToPYTHON)


def inherited(base, key):
    """the class changes nothing of the other but its constructor and post_process"""
    a, b = concrete.CLASS[base], concrete.CLASS[key]
    own = lambda cls, n: next((c.__dict__[n] for c in cls.__mro__ if n in c.__dict__), None)
    return all(own(a, n) is own(b, n) for n in dir(a) if not n.startswith("__") and n != "post_process")


def shared_types(led):
    """terms declared the same as a term with a type have it in every graph closed under eq-sym and eq-rep-s (C01, C07)"""
    ck = Checker(led)
    x, y, z, p, c = [z3.Const("st_" + n, V) for n in "xyzpc"]
    SA = C(spec.OWL.sameAs)
    ax = [z3.ForAll([x, y], z3.Implies(H_(x, SA, y), H_(y, SA, x)), patterns=[H_(x, SA, y)]),
          z3.ForAll([x, y, p, z], z3.Implies(z3.And(H_(x, SA, y), H_(x, p, z)), H_(y, p, z)), patterns=[z3.MultiPattern(H_(x, SA, y), H_(x, p, z))])]
    ck.prove("lemma: x sameAs y, y type c gives x type c", ax + [H_(x, SA, y), H_(y, TYPE, c)], H_(x, TYPE, c))
    ck.prove("lemma: y sameAs x, y type c gives x type c", ax + [H_(y, SA, x), H_(y, TYPE, c)], H_(x, TYPE, c))
    ck.done()


def restricted(led):
    """C14: the one-time rules of the extended closure type the literals a restricted datatype accepts"""
    ck = Checker(led)
    x, a, b, rd, t = [z3.Const("rt_" + n, V) for n in ("x", "a", "b", "rd", "t")]
    for key in ("EXT", "TRIM"):
        if key == "TRIM" and inherited("EXT", "TRIM"):
            ck.ok("OWLRL_Extension_Trimming: the one-time rules are those of the extension class", True)
            continue
        ph = phase(key, "one_time_rules")
        led.used(ph.ex)
        ck.consistent(ph)
        S = ph.emitted
        acc = [U_(a, b, x), isLit(x), is_RD(rd), rd_accepts(rd, x), Not(rd_raises(rd, x)), Not(S((x, TYPE, rd_datatype(rd)))), Not(U_(x, TYPE, rd_datatype(rd)))]
        sub = cons_rows([(v,) for v in spec.SUPPORTED]).ground_axioms()
        ck.prove("%s: an accepted literal of the base type is typed with the restricted datatype" % ph.label, ph.entry + sub + acc + [Eq(f_dt(x), rd_base(rd)), SUPP(f_dt(x))], FALSE, ph.facts)
        ck.prove("%s: an accepted literal explicitly of the base type is typed with the restricted datatype" % ph.label, ph.entry + sub + acc + [U_(x, TYPE, rd_base(rd))], FALSE, ph.facts)
    ck.done()
