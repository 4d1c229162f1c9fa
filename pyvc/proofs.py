"""Obligations of the rule engines: completeness and soundness of rules(t, cycle) against the rule tables."""
import itertools
import time
import multiprocessing
import traceback
from .vc import *  # noqa: F401,F403
from . import spec, sym, folds, load

CLASSES = {"OWLRL": load.OWLRL.OWLRL_Semantics, "RDFS": load.RDFSClosure.RDFS_Semantics, "BOTH": load.CombinedClosure.RDFS_OWLRL_Semantics,
           "EXT": load.OWLRLExtras.OWLRL_Extension, "TRIM": load.OWLRLExtras.OWLRL_Extension_Trimming}


# ----- obligations run in parallel ----------------------------------------------------------------------------------
_jobs = []


def _work(k):
    name, thunk = _jobs[k]
    try:
        r = thunk()
        if isinstance(r, list):
            return [(x.name, x.status, x.seconds, x.solver, x.detail) for x in r]
        return [(r.name, r.status, r.seconds, r.solver, r.detail)]
    except Unsupported as e:
        return [(name, "failed", 0.0, "executor", "unsupported: %s" % e)]
    except Exception as e:
        return [(name, "failed", 0.0, "executor", "%s: %s" % (type(e).__name__, traceback.format_exc()[-800:]))]


def run_jobs(led, jobs, procs=8):
    """jobs: list of (name, thunk returning a Result or a list of them)"""
    global _jobs
    _jobs = jobs
    if not jobs:
        return
    n = min(procs, len(jobs))
    with multiprocessing.get_context("fork").Pool(n) as pool:
        for out in pool.imap(_work, range(len(jobs)), chunksize=1):
            for x in out:
                led.results.append(Result(*x))


def litt(v):
    return z3.BoolVal(isinstance(sym.concrete_of(v), spec.Literal)) if sym.is_const(v) else isLit(v)


# ----- helpers ----------------------------------------------------------------------------------------------------
def pattern_ok(e):
    """only uninterpreted symbols and integer arithmetic"""
    stack = [e]
    first = True
    while stack:
        x = stack.pop()
        if not z3.is_app(x):
            return False
        if x.num_args() and x.decl().kind() not in (z3.Z3_OP_UNINTERPRETED,):
            return False
        if not first and x.sort() == B:
            return False
        first = False
        stack.extend(x.children())
    return True


def patterns_for(bs, conds):
    """U/D/H atoms (and table, NB, path atoms) covering the binders"""
    want = set(b.get_id() for b in bs)
    pats, have = [], set()

    def visit(c):
        if z3.is_and(c):
            for x in c.children(): visit(x)
        elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.num_args():
            pats.append(c)
    for c in conds:
        visit(c)
    pats[:] = [p for p in pats if pattern_ok(p)]
    pref = [p for p in pats if p.decl().name() in ("U", "D", "H", "O")] + [p for p in pats if p.decl().name() in ("Reach", "ReachH")] + \
        [p for p in pats if p.decl().name().startswith("T_")]
    out = []
    for p in pref:
        f = free_ids(p) & want
        if f - have:
            out.append(p)
            have |= f
    # items of lists
    rest = want - have
    if rest:
        items = []
        stack, seen = list(conds), set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if (x.decl().eq(litem) or (x.decl().name() in ("qat", "qlen"))) and pattern_ok(x):
                items.append(x)
            stack.extend(x.children())
        for p in items:
            f = free_ids(p) & want
            if f - have:
                out.append(p)
                have |= f
    return out if want <= have else None


def forall(bs, conds, concl):
    conds = [c for c in conds if not z3.is_true(c)]
    body = z3.Implies(z3.And(*conds), concl) if conds else concl
    if not bs:
        return body
    ps = patterns_for(bs, conds)
    if ps:
        return z3.ForAll(list(bs), body, patterns=[z3.MultiPattern(*ps) if len(ps) > 1 else ps[0]])
    return z3.ForAll(list(bs), body)


def norm_piece(bs, conds, val):
    """eliminates binders fixed by an equation; returns None when the conditions fold to false"""
    bs, conds = list(bs), [And(*conds)]
    while True:
        flat = []
        for c in conds:
            flat += c.children() if z3.is_and(c) else [c]
        if any(z3.is_false(c) for c in flat):
            return None
        ids = {b.get_id() for b in bs}
        hit = None
        for k, c in enumerate(flat):
            if z3.is_eq(c):
                for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if l.get_id() in ids and l.get_id() not in free_ids(r):
                        hit = (k, l, r)
                        break
            if hit: break
        if not hit:
            return bs, [c for c in flat if not z3.is_true(c)], val
        k, l, r = hit
        conds = [And(*[subst(c, [(l, r)]) for n, c in enumerate(flat) if n != k])]
        if val is not None:
            val = tuple(subst(v, [(l, r)]) for v in val)
        bs = [b for b in bs if b.get_id() != l.get_id()]


class RuleSet:
    """a class's rules() and the specification it is checked against"""
    def __init__(self, key, rules, false_rules, flags=()):
        self.key, self.cls = key, CLASSES[key]
        self.run = RulesRun(self.cls)
        self.rules, self.false_rules = rules, false_rules
        self.flags = list(flags)
        self.typable = self.ext_typable if key in ("EXT", "TRIM") else None
        self.ground = [(a, spec.RDF.type, spec.OWL.AnnotationProperty) for a in spec.ANNOTATION]
        # symmetric sameAs for terms of any pair: emission of eq-sym, used where the code skips known pairs
        self.general = []

    def ext_typable(self, v, t):
        """every restricted datatype with that name accepts the literal (comparisons that raise count as accepted)"""
        rd = fresh("rd")
        lit = z3.Implies(z3.And(is_RD(rd), rd_datatype(rd) == t, isLit(v)), z3.Or(rd_raises(rd, v), rd_accepts(rd, v)))
        return z3.ForAll([rd], lit, patterns=[is_RD(rd)])

    def rd_axioms(self):
        if self.typable is None:
            return []
        a, b = z3.Const("rda", V), z3.Const("rdb", V)
        return [z3.ForAll([a, b], z3.Implies(z3.And(is_RD(a), is_RD(b), rd_datatype(a) == rd_datatype(b)), a == b), patterns=[z3.MultiPattern(is_RD(a), is_RD(b))])]

    def closed(self, ts, eqsym=True):
        """at the fixpoint: everything rules() stores for the triples ts is in the graph"""
        out = []
        for t in ts:
            for p in self.run.emissions:
                bs, conds, val = self.run.at(p, t)
                n = norm_piece(bs, conds, val)
                if n is None:
                    continue
                bs, conds, val = n
                out.append(forall(bs, conds, Or(U_(*val), litt(val[1]))))
        return out

    def closed_general(self):
        """the same for every triple of the graph, restricted to the sameAs predicate (eq-sym)"""
        x, y = z3.Const("gx", V), z3.Const("gy", V)
        same = const(spec.OWL.sameAs)
        out = []
        for p in self.run.emissions:
            bs, conds, val = self.run.at(p, (x, same, y))
            n = norm_piece(bs, conds, val)
            if n is None:
                continue
            bs, conds, val = n
            if bs or [c for c in conds if not c.eq(U_(x, same, y)) and not c.eq(z3.simplify(self.run.cycle >= 1)) and not c.eq(self.run.cycle >= 1)]:
                continue
            out.append(z3.ForAll([x, y], z3.Implies(U_(x, same, y), Or(U_(*val), litt(val[1]))), patterns=[U_(x, same, y)]))
        return out

    # -- completeness
    def complete(self, r):
        name = "%s: completeness of %s" % (self.cls.__name__, r.name)
        env = envof(r)
        prem = rule_prem_pos(r, env, self.typable)
        ts = [tuple(zt(x, env) for x in a) for a in r.triples()]
        concl = tuple(zt(x, env) for x in r.concl)
        goal = Or(U_(*concl), litt(concl[1]))
        if r.concl[1] in spec.REFLEXIVE:
            goal = Or(goal, Eq(concl[0], concl[2]))
        extra = []
        # list rules: the premises hold triples whose rules store things for each member
        first = [t for a, t in zip(r.triples(), ts) if not isvar(a[1])] or ts
        base = prem + self.flags + self.rd_axioms() + [self.run.cycle >= 1]
        h1 = base + self.closed(first)
        res = prove(name, h1, goal, timeout=1500, facts=self.run.ex.facts)
        if res.status == "proved":
            return res
        res = self.by_witness(name, r, env, ts, prem, base, goal, concl)
        if res is not None:
            return res
        more = member_triples(r, env)
        h2 = base + self.closed(ts + more) + self.closed_general()
        return prove(name, h2, goal, facts=self.run.ex.facts)

    def by_witness(self, name, r, env, ts, prem, base, goal, concl):
        """finds the instance of one store_triple call that yields the conclusion and proves its conditions one by one"""
        if not any(a[0] in ("PATH", "KEYS", "ALLTYPE") for a in r.prem):
            return None
        t0 = time.time()
        cand = {V: [e for e in env.values() if e.sort() == V], I: [], Q: []}
        for c in _const_exprs(prem):
            if c.sort() == Q: cand[Q].append(c)
        paths = None
        for a in r.prem:
            if a[0] == "PATH":
                l, u, v = [zt(x, env) for x in a[1:]]
                mid = z3.Function("left_mid_Reach", V, I, I, V, V, V)(l, z3.IntVal(0), llen(l), u, v)
                cand[V].append(mid)
                # lemma left-decompose for the path of the premise; paths have prefixes
                inst = z3.Implies(z3.And(llen(l) > 0, Reach(l, 0, llen(l), u, v)), z3.And(U_(u, litem(l, 0), mid), Reach(l, 1, llen(l), mid, v)))
                paths = [inst, reach_prefix(Reach, U_)]
        general = self.closed(ts[1:] if len(ts) > 1 else []) + self.closed_general() if any(a[0] == "KEYS" for a in r.prem) else []
        for t in ts:
            for p in self.run.emissions:
                n = norm_piece(*self.run.at(p, t))
                if n is None:
                    continue
                bs, conds, val = n
                theta = []
                ids = {b.get_id() for b in bs}
                ok = True
                for v, c in zip(val, concl):
                    if v.get_id() in ids:
                        if any(x.eq(v) for x, _ in theta) and not any(x.eq(v) and y.eq(c) for x, y in theta): ok = False
                        elif not any(x.eq(v) for x, _ in theta): theta.append((v, c))
                    elif not v.eq(c):
                        ok = False
                if not ok:
                    continue
                rest = [b for b in bs if not any(b.eq(x) for x, _ in theta)]
                if len(rest) > 3:
                    continue
                for combo in itertools.product(*[cand.get(b.sort(), []) for b in rest]):
                    th = theta + list(zip(rest, combo))
                    cs = []
                    for c in conds:
                        d = subst(c, th)
                        cs += d.children() if z3.is_and(d) else [d]
                    cs.sort(key=lambda c: len(c.sexpr()))
                    good = True
                    for c in cs:
                        hy = base + [Not(goal)] + (general if "sameAs" in c.sexpr() else [])
                        if prove(name, hy, c, timeout=1500, facts=self.run.ex.facts, paths=paths).status != "proved":
                            good = False
                            break
                    if good:
                        return Result(name, "proved", time.time() - t0, "z3")
        return None

    def complete_false(self, r):
        name = "%s: every %s inconsistency is reported" % (self.cls.__name__, r.name)
        env = envof(r)
        prem = rule_prem_pos(r, env, self.typable)
        ts = [tuple(zt(x, env) for x in a) for a in r.triples()]
        no_error = []
        for t in ts:
            for p in self.run.errors:
                bs, conds, val = self.run.at(p, t)
                n = norm_piece(bs, conds, val)
                if n is None:
                    continue
                no_error.append(forall(n[0], n[1], z3.BoolVal(False)))
        hyps = prem + self.flags + self.rd_axioms() + no_error + [self.run.cycle >= 1]
        return prove(name, hyps, FALSE, facts=self.run.ex.facts)

    # -- soundness
    def consts_of(self, es):
        ids = ids_in(es)
        return set(str(sym.concrete_of(c)) for c in _const_exprs(es) if sym.is_const(c))

    def relevance(self, r, names):
        need = set(str(x) for a in list(r.prem) + ([("T",) + r.concl] if r.concl else []) for x in a[1:] if not isvar(x) and not isinstance(x, int))
        return need <= names

    def sound(self, k, p, extra_rules=()):
        bs, conds, val = self.run.at(p, self.run.t)
        name = "%s: soundness of what %s stores (%s)" % (self.cls.__name__, p.origin, ", ".join(_pretty(v) for v in val))
        n = norm_piece(bs, [c for c in p.conds], val)
        if n is None:
            return Result(name, "proved", 0.0, "folding")
        bs, conds, val = n
        goal = Or(H_(*val), litt(val[1]))
        names = self.consts_of(conds + list(val))
        hyps = conds + self.flags + self.rd_axioms() + [U_in_H()]
        want = set(x.get_id() for x in _const_exprs(list(val)))
        hyps += [H_(*[const(x) for x in g]) for g in self.ground if const(g[2]).get_id() in want]
        rel = [r for r in self.rules if self.relevance(r, names)]
        for rs in ([r for r in rel if unconditional(r) is False], rel, self.rules):
            ax = [rule_axiom(r, H_, ReachH, self.typable) for r in rs]
            res = prove(name, hyps + ax, goal, timeout=2000, facts=self.run.ex.facts)
            if res.status == "proved":
                return res
        ax = [rule_axiom(r, H_, ReachH, self.typable) for r in rel]
        return self.with_recipe(prove(name, hyps + ax, goal, facts=self.run.ex.facts), p)

    def with_recipe(self, res, p):
        """for the search of a failing input: graphs on which the code does this"""
        if res.status != "proved":
            from . import recipe
            res.detail = recipe.text([U_(*self.run.t)] + list(p.conds)) + res.detail
        return res

    def sound_error(self, p, exclude=None):
        name = "%s: errors of %s" % (self.cls.__name__, p.origin)
        n = norm_piece(p.binders, p.conds, None)
        if n is None:
            return Result(name, "proved", 0.0, "folding")
        bs, conds, _ = n
        names = self.consts_of(conds)
        hyps = conds + self.flags + self.rd_axioms() + [U_in_H()]
        if self.typable is not None:
            # documented: a literal that a restricted datatype rejects
            hyps.append(self.no_facet_violation())
        same = [r for r in self.rules if r.name in ("eq-sym",)]
        rel = [r for r in self.false_rules if self.relevance(r, names)]
        for rs in (rel, self.false_rules):
            ax = [rule_axiom(r, H_, ReachH, self.typable) for r in rs + same]
            res = prove(name, hyps + ax, FALSE, timeout=3000, facts=self.run.ex.facts)
            if res.status == "proved":
                return res
        return self.with_recipe(prove(name, hyps + ax, FALSE, facts=self.run.ex.facts), p)

    def no_facet_violation(self):
        """no allValuesFrom restriction to a restricted datatype is violated"""
        T = lambda x: const(x)
        x, y, p, u, v, rd = [z3.Const("fv_" + n, V) for n in ("x", "y", "p", "u", "v", "rd")]
        body = z3.Implies(z3.And(H_(x, T(spec.OWL.allValuesFrom), y), H_(x, T(spec.OWL.onProperty), p), H_(u, TYPE, x), H_(u, p, v), isLit(v),
                                 is_RD(rd), rd_datatype(rd) == y), z3.Or(rd_accepts(rd, v), rd_raises(rd, v)))
        return z3.ForAll([x, y, p, u, v, rd], body, patterns=[z3.MultiPattern(H_(x, T(spec.OWL.allValuesFrom), y), H_(x, T(spec.OWL.onProperty), p), H_(u, TYPE, x), H_(u, p, v), is_RD(rd))])

    def facet_reported(self):
        """C14: a literal rejected by the restricted datatype of an allValuesFrom restriction is reported"""
        name = "%s: allValuesFrom violation by a rejected literal is reported" % self.cls.__name__
        T = const
        x, y, p, u, v, rd = [z3.Const("q_" + n, V) for n in ("x", "y", "p", "u", "v", "rd")]
        prem = [U_(x, T(spec.OWL.allValuesFrom), y), U_(x, T(spec.OWL.onProperty), p), U_(u, TYPE, x), U_(u, p, v), isLit(v), is_RD(rd), rd_datatype(rd) == y,
                Not(rd_accepts(rd, v)), Not(rd_raises(rd, v))]
        no_error = []
        for pc in self.run.errors:
            n = norm_piece(*self.run.at(pc, (x, T(spec.OWL.allValuesFrom), y)))
            if n is not None:
                no_error.append(forall(n[0], n[1], z3.BoolVal(False)))
        return prove(name, prem + self.flags + self.rd_axioms() + no_error + [self.run.cycle >= 1], FALSE, facts=self.run.ex.facts)

    def vacuity(self):
        """the premises of the obligations are satisfiable together: a graph triple and its rules do not prove false"""
        out = []
        s = z3.Solver()
        limit(s, 3000)
        fs = [U_(*self.run.t)] + self.flags + self.closed([self.run.t]) + [U_in_H()] + self.rd_axioms()
        s.add(*(background(fs) + fs))
        r = s.check()
        return Result("%s: hypotheses are consistent (must not prove false)" % self.cls.__name__, "proved" if r != z3.unsat else "failed", 0.0, "z3",
                      "" if r != z3.unsat else "the hypotheses are contradictory")

    def fold_obligations(self):
        out = []
        for k, (name, hyps, goal, kind) in enumerate(self.run.ex.obligations):
            out.append(("%s: %s" % (self.cls.__name__, name), lambda name=name, hyps=hyps, goal=goal: prove("%s: %s" % (self.cls.__name__, name), hyps, goal, facts=self.run.ex.facts)))
        return out

    def raises_infeasible(self):
        out = []
        for k, (cls, st, note) in enumerate(self.run.ex.raises):
            nm = "%s: no %s at %s" % (self.cls.__name__, getattr(cls, "__name__", cls), note)
            conds = st.conds_since(0)
            out.append((nm, lambda nm=nm, conds=conds: prove(nm, conds + self.flags, FALSE, facts=self.run.ex.facts)))
        return out


def unconditional(r):
    """rules whose single premise is an arbitrary triple (instantiated for everything)"""
    return len(r.prem) == 1 and all(isvar(x) for x in r.prem[0][1:])


def _pretty(v):
    return "?" + str(v).split("@")[0] if not sym.is_const(v) else short(sym.concrete_of(v))


def _const_exprs(es):
    out, seen, stack = [], set(), list(es)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0: out.append(x)
            stack.extend(x.children())
    return out


def rule_prem_pos(r, env, typable):
    return [atom(a, env, U_, Reach, typable, pos=True) for a in r.prem]


def member_triples(r, env):
    """further triples whose rules are used: the reverse of a sameAs premise (which is in the graph by eq-sym)"""
    return [(zt(a[2], env), zt(a[1], env), zt(a[0], env)) for a in r.triples() if a[1] == spec.OWL.sameAs]


def rule_jobs(rs, which):
    """jobs for one RuleSet; which: subset of {'complete','false','sound','error'}"""
    jobs = []
    if "complete" in which:
        for r in rs.rules:
            jobs.append((r.name, lambda r=r: rs.complete(r)))
    if "false" in which:
        for r in rs.false_rules:
            jobs.append((r.name, lambda r=r: rs.complete_false(r)))
    if "sound" in which:
        for k, p in enumerate(rs.run.emissions):
            jobs.append((str(p.origin), lambda k=k, p=p: rs.sound(k, p)))
    if "facets" in which:
        jobs.append(("facets", rs.facet_reported))
    if "error" in which:
        for p in rs.run.errors:
            jobs.append((str(p.origin), lambda p=p: rs.sound_error(p)))
    jobs += rs.fold_obligations()
    jobs.append(("vacuity", rs.vacuity))
    return jobs


OWL_T = [r for r in spec.OWLRL if r.concl is not None]
OWL_F = [r for r in spec.OWLRL if r.concl is None]


def ruleset(key):
    rflag = z3.Const("rdfs_flag", B)
    if key == "OWLRL":
        return [RuleSet(key, OWL_T, OWL_F)]
    if key == "RDFS":
        return [RuleSet(key, list(spec.RDFS_RULES), [])]
    if key == "BOTH":
        return [RuleSet(key, OWL_T + list(spec.RDFS_RULES), OWL_F)]
    ext = OWL_T + list(spec.SELF_RULES)
    return [RuleSet(key, ext + list(spec.RDFS_RULES), OWL_F, [rflag]), RuleSet(key, ext, OWL_F, [z3.Not(rflag)])]
