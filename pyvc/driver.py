"""The forward chaining driver (Core.closure and what it calls) against its contract, for any closure class: the phases are
virtual methods of which only the contract is known (they store triples, record errors, change the graph)."""
import ast
import itertools
import time
from .vc import *  # noqa: F401,F403
from . import vc, spec, sym, load
from .interp import assigned_names, InitV
from .exec import State, Piece, Content, GLog, Cont, Exit, Unsupported, GraphRef, Opaque, Phi

Core = load.Closure.Core
f_stored = z3.Function("stored_by_rules", V, V, V, I, V, V, V, B)
f_err_rules = z3.Function("error_by_rules", V, V, V, I, V, B)
PHASES = ["pre_process", "add_axioms", "add_d_axioms", "one_time_rules", "rules", "post_process"]
ERRTYPE = const(URIRef("http://www.daml.org/2002/03/agents/agent-ont#ErrorMessage"))
ERRPROP = const(URIRef("http://www.daml.org/2002/03/agents/agent-ont#error"))


def conts(st, me):
    """the store and the recorded messages; where branches left different containers, one container with guarded contents"""
    d = st.heap[me.loc]
    for k in ("added_triples", "error_messages"):
        if isinstance(d[k], Phi):
            d = dict(d)
            d[k] = _join(st, d[k])
            st.heap[me.loc] = d
        if not isinstance(d[k], Cont):
            raise Unsupported("self.%s is not one container: %r" % (k, d[k]))
    return d["added_triples"], d["error_messages"]


_joined = itertools.count()


def _join(st, phi):
    pieces, kind, depth = [], None, 0
    def go(conds, v):
        nonlocal kind, depth
        if isinstance(v, Phi):
            for c, x in v.alts: go(conds + [c], x)
        elif isinstance(v, Cont):
            kind = v.kind
            c = st.heap[v.loc]
            depth = max(depth, c.depth)
            pieces.extend(Piece(p.binders, list(conds) + list(p.conds), p.value, origin=getattr(p, "origin", None)) for p in c.pieces)
        else:
            raise Unsupported("not a container: %r" % (v,))
    go([], phi)
    loc = "joined_%d" % next(_joined)
    st.heap[loc] = Content(pieces, depth)
    return Cont(loc, kind)


class Event:
    def __init__(self, what, st, args=(), phase_state=None):
        self.what, self.args = what, args
        self.binders, self.conds = list(st.binders_since(0)), list(st.conds_since(0))
        self.st = st.clone()


class DriverRun:
    def __init__(self, cls=Core):
        self.events = []
        self.loops = []
        self.problems = []
        ns = {}
        for ph in PHASES:
            exec("def %s(self, *a, **k): pass" % ph, ns)
        self.cls = type("AnyClosure", (cls,), {ph: ns[ph] for ph in PHASES})
        contracts = {}
        for ph in PHASES:
            f = ns[ph]
            f.__module__, f.__qualname__ = "pyvc.driver", "AnyClosure." + ph
            contracts["driver.AnyClosure." + ph] = self.rules if ph == "rules" else self.phase(ph)
        # the constructor of Core
        self.run = Run.__new__(Run)
        Run.__init__(self.run, self.cls, contracts, havoc=True)
        ex = self.ex = self.run.ex
        ex.while_hook = self.loop
        st = self.run.state
        self.me = self.run.me
        st.heap["graph"] = GLog(())
        # closure() is called once, on a fresh object: nothing is stored yet
        self.ctor_empty = [len(self.run.init_state.heap[c.loc].pieces) for c in conts(self.run.init_state, self.me)]
        f, c = self.run.method("closure")
        ex.call_function(st, f, [self.me], {}, c)
        self.final = st

    # -- contracts of the virtual methods
    def phase(self, ph):
        def contract(ex, st, args, kw):
            self.events.append(Event(ph, st))
            at, em = conts(st, self.me)
            n = self.count(ph)
            r = [fresh("st") for _ in range(3)]
            P = z3.Function("stored_by_%s" % n, V, V, V, B)
            new = And(P(*r), Not(isLit(r[1])), Not(ex.g_contains(st, "G", tuple(r))))
            ex.emit_piece(st, at.loc, Piece(r, [new], tuple(r), origin=n))
            if ph != "one_time_rules":
                d = [fresh("dd") for _ in range(3)]
                Dp = z3.Function("added_by_%s" % n, V, V, V, B)
                s2 = st.clone()
                for b in d: s2.ctx.append(("b", b))
                s2.assume(Dp(*d))
                ex.gop(s2, "add", "D", tuple(d))
                st.heap["graph"] = s2.heap["graph"]
            m = fresh("msg")
            E = z3.Function("error_by_%s" % n, V, B)
            ex.emit_piece(st, em.loc, Piece([m], [E(m)], m, origin=n))
            if ph == "post_process" and not self.events[-1].binders:
                # all the messages, as one set (add_error keeps them distinct)
                All = z3.Function("errors_at_the_end", V, B)
                x = fresh("msg")
                member = Or(*[ex.match(st, Piece(p.binders, p.conds, (p.value,)), (x,)) for p in st.heap[em.loc].pieces])
                ex.facts.append(z3.ForAll([x], All(x) == member, patterns=[All(x)]))
                y = fresh("msg")
                st.heap[em.loc] = Content([Piece([y], [All(y)], y, origin="messages")], st.heap[em.loc].depth)
                self.all_errors = All
                self.errors_before_at = lambda m, member=member, x=x: z3.substitute(member, (x, m))
            return None
        return contract

    def count(self, ph):
        self._n = getattr(self, "_n", 0) + 1
        return "%s_%d" % (ph, self._n)

    def rules(self, ex, st, args, kw):
        args = list(args) + [kw[k] for k in ("t", "cycle_num") if k in kw]
        me, t, n = args
        t = tuple(ex.to_V(x) for x in ex.unpack(st, t, 3))
        n = ex.to_z3(n)
        if n is None or n.sort() != I:
            raise Unsupported("cycle number")
        self.events.append(Event("rules", st, (t, n)))
        at, em = conts(st, self.me)
        r = [fresh("st") for _ in range(3)]
        cond = And(f_stored(*(t + (n,) + tuple(r))), Not(isLit(r[1])), Not(ex.g_contains(st, "G", tuple(r))))
        ex.emit_piece(st, at.loc, Piece(r, [cond], tuple(r), origin="rules"))
        m = fresh("msg")
        ex.emit_piece(st, em.loc, Piece([m], [f_err_rules(*(t + (n, m)))], m, origin="rules"))
        return None

    # -- the loop
    def loop(self, ex, s, st):
        body = list(s.body)
        depth = len(st.ctx)
        info = {"entry": st.clone()}
        c0 = ex.fold_known(st, ex.truth(st, ex.eval(s.test, st.clone())))
        info["enter"] = c0
        W = assigned_names(s.body)
        # first iteration: which cycle number do the rules see
        n_ev = len(self.events)
        first = st.clone()
        first.assume(c0)
        mark = (len(ex.facts), len(ex.raises))
        ex.exec_block(body, first)
        info["first"] = self.events[n_ev:]
        del self.events[n_ev:]
        del ex.facts[mark[0]:], ex.raises[mark[1]:]
        # an arbitrary iteration
        h = st.clone()
        for w in W:
            if w not in h.env:
                continue
            v = h.env[w]
            z = ex.to_z3(v)
            if isinstance(v, bool) or (z is not None and z.sort() == B):
                h.env[w] = fresh("flag_" + w, B)
            elif z is not None and z.sort() == I:
                h.env[w] = fresh("num_" + w, I)
                h.assume(h.env[w] >= z)
            else:
                h.env[w] = InitV(w, -1, None, dead=True)
        at, em = conts(st, self.me)
        inv = {}
        pieces_before = {k: v for k, v in h.heap.items()}
        attrs = h.heap[self.me.loc]
        for k, v in attrs.items():
            if isinstance(v, Cont) and v.loc in (at.loc, em.loc):
                continue
        K = z3.Function("graph_at_head", V, V, V, B)
        ks = [fresh("g") for _ in range(3)]
        h.heap["graph"] = GLog((("add", "D", Piece(ks, [K(*ks)], tuple(ks), origin="head")),))
        A = z3.Function("stored_at_head", V, V, V, B)
        a3 = [fresh("a") for _ in range(3)]
        h.heap[at.loc] = Content([Piece(a3, [A(*a3)], tuple(a3), origin="head")], h.heap[at.loc].depth)
        E = z3.Function("errors_at_head", V, B)
        m = fresh("m")
        h.heap[em.loc] = Content([Piece([m], [E(m)], m, origin="head")], h.heap[em.loc].depth)
        # invariant: what is in the store at the head is in the graph already
        x = [z3.Const("inv_" + n, V) for n in "spo"]
        self.inv = z3.ForAll(x, z3.Implies(A(*x), z3.Or(U_(*x), K(*x))), patterns=[A(*x)])
        self.grow = z3.ForAll(x, z3.Implies(self.in_graph(st, x), z3.Or(U_(*x), K(*x))))
        info["head"] = h.clone()
        c1 = ex.fold_known(h, ex.truth(h, ex.eval(s.test, h.clone())))
        h.assume(c1)
        info["pass"] = h.clone()
        n_ev = len(self.events)
        normal, exits = ex.exec_block(body, h)
        info["events"] = self.events[n_ev:]
        ends = ([normal] if normal is not None else []) + [e.st for e in exits if e.kind == "continue"]
        outs = []
        info["continue"] = []
        for e in ends:
            c = ex.fold_known(e, ex.truth(e, ex.eval(s.test, e.clone())))
            if not z3.is_true(c):
                o = e.clone()
                o.assume(Not(c))
                outs.append(o)
            if not z3.is_false(c):
                o = e.clone()
                o.assume(c)
                info["continue"].append(o)
        outs += [e.st for e in exits if e.kind == "break"]
        rest = [e for e in exits if e.kind not in ("continue", "break")]
        for e in rest:
            if e.kind == "return":
                raise Unsupported("return from inside the rule cycles")
        info["exits"] = [o.clone() for o in outs]
        self.loops.append(info)
        if not outs:
            raise Unsupported("the loop never ends")
        m_ = ex.merge(depth, outs) if len(outs) > 1 else outs[0]
        if s.orelse:
            m_, more = ex.exec_block(s.orelse, m_)
            rest += more
        return m_, rest

    # -- formulas
    def in_graph(self, st, x):
        return self.ex.g_contains(st, "G", tuple(x))

    def stored(self, st, x):
        at, _ = conts(st, self.me)
        return Or(*[self.ex.match(st, p, x) for p in st.heap[at.loc].pieces])

    def hyps(self, st):
        out = st.conds_since(0)
        return out


def store_empty_obligations(led, cls=Core):
    """nothing is stored any more when post_process starts (whatever it flushes, it stored itself)"""
    r = DriverRun(cls)
    led.used(r.ex)
    x = [z3.Const("x_" + n, V) for n in "spo"]
    es = [e for e in r.events if e.what == "post_process"]
    led.results.append(Result("%s.closure: post_process is called" % cls.__name__, "proved" if es else "failed", 0.0, "executor", ""))
    for k, e in enumerate(es):
        led.results.append(prove("%s.closure: no triple waits in the store when post_process starts (%d)" % (cls.__name__, k), e.conds + [r.stored(e.st, x), r.inv], FALSE, facts=r.ex.facts))


def driver_obligations(led, cls=Core):
    r = DriverRun(cls)
    led.used(r.ex)
    nm = cls.__name__
    ok = lambda name, b, detail="": led.results.append(Result("%s.closure: %s" % (nm, name), "proved" if b else "failed", 0.0, "executor", "" if b else (detail or "does not hold")))
    facts = r.ex.facts
    x = [z3.Const("x_" + n, V) for n in "spo"]
    P = lambda name, hyps, goal: led.results.append(prove("%s.closure: %s" % (nm, name), hyps, goal, facts=facts))

    ok("the constructor starts with no stored triples and no errors", not any(r.ctor_empty))
    ok("the rule cycles are one loop", len(r.loops) == 1, "%d loops" % len(r.loops))
    if len(r.loops) != 1:
        return
    L = r.loops[0]
    # order of the phases
    rank = {p: k for k, p in enumerate(PHASES)}
    seq = [e for e in r.events]
    guards = {"pre_process": TRUE, "add_axioms": r.run.axioms, "add_d_axioms": r.run.daxioms, "one_time_rules": TRUE, "post_process": TRUE}
    base = [c for k, c in r.run.state.ctx if k == "c"] if False else []
    for k, e in enumerate(seq):
        for e2 in seq[k + 1:]:
            if e.what == "rules" and e2.what == "rules":
                continue
            if rank[e2.what] <= rank[e.what]:
                P("%s comes before %s" % (e2.what, e.what) if rank[e2.what] < rank[e.what] else "%s runs once" % e.what, e.conds + e2.conds, FALSE)
    # a phase runs exactly when it should
    init = set()
    for ph, g in guards.items():
        es = [e for e in seq if e.what == ph]
        if not es:
            ok("%s runs" % ph, False, "it is never called")
            continue
        ok("%s is called outside loops" % ph, all(not e.binders for e in es))
        if ph == "post_process":
            # after the loop: in the state of the exit
            for e in es:
                own = [c for c in e.conds if not any(c.eq(d) for s in L["exits"] for d in s.conds_since(0))]
                ok("post_process runs after every end of the rule cycles", len(L["exits"]) > 1 or not own or all(z3.is_true(c) for c in own), str(own))
            continue
        P("%s runs exactly when it should" % ph, [], Or(*[And(*e.conds) for e in es]) == g)
    # what is stored in a phase is in the graph when the next phase starts
    for e in seq:
        if e.what in ("pre_process", "add_axioms", "add_d_axioms") or e.what == "rules":
            continue
        P("what was stored before %s is in the graph" % e.what, e.conds + [r.stored(e.st, x), r.inv], r.in_graph(e.st, x))
    P("what was stored before the rule cycles is in the graph", L["entry"].conds_since(0) + [r.stored(L["entry"], x)], r.in_graph(L["entry"], x))
    st = r.final
    P("what was stored is in the graph at the end", st.conds_since(0) + [r.stored(st, x), r.inv], r.in_graph(st, x))
    # the loop
    P("the rule cycles are entered", L["entry"].conds_since(0), L["enter"])
    head = L["pass"]
    ok("rules is called in the rule cycles", bool(L["events"]) and all(e.what == "rules" for e in L["events"]))
    ok("the first cycle is number 1", bool(L["first"]) and all(z3.is_int_value(z3.simplify(e.args[1])) and z3.simplify(e.args[1]).as_long() == 1 for e in L["first"] if e.what == "rules"))
    nstores = 0
    for k, s in enumerate(L["exits"]):
        hy = s.conds_since(0) + [r.inv]
        # coverage: rules was called for every triple of the graph (as it was at the start of the pass, which is as it is at the end)
        called = Or(*[Exists([b for b in e.binders], And(*([c for c in e.conds] + [Eq(a, b) for a, b in zip(e.args[0], x)]))) for e in L["events"] if e.what == "rules"])
        P("the last pass covers every triple (end %d)" % k, hy + [r.in_graph(head, x)], called)
        P("the graph does not change in the last pass (end %d)" % k, hy + [r.in_graph(s, x)], r.in_graph(head, x))
        # nothing was stored
        y = [z3.Const("y_" + n, V) for n in "spo"]
        for e in L["events"]:
            if e.what != "rules": continue
            t, n = e.args
            st3 = And(f_stored(*(t + (n,) + tuple(y))), Not(isLit(y[1])), Not(r.in_graph(head, y)))
            P("nothing new was stored in the last pass (end %d)" % k, hy + e.conds + [st3], FALSE)
            nstores += 1
        # reachable: the end of the loop is not impossible
        sv = z3.Solver()
        limit(sv, 2000)
        sv.add(*(background(hy) + hy))
        ok("the rule cycles can end (end %d)" % k, sv.check() != z3.unsat, "contradictory")
    ok("there is an end of the rule cycles", bool(L["exits"]))
    for k, s in enumerate(L["continue"]):
        hy = s.conds_since(0) + [r.inv]
        y = [z3.Const("y_" + n, V) for n in "spo"]
        P("every further cycle follows a new triple (end %d)" % k, hy + [z3.ForAll(y, z3.Implies(r.in_graph(s, y), r.in_graph(head, y)))], FALSE)
        P("what is stored is in the graph before the next cycle (end %d)" % k, hy + [r.stored(s, x)], r.in_graph(s, x))
        P("no triple is lost between cycles (end %d)" % k, hy + [r.in_graph(head, x)], r.in_graph(s, x))
        for e in L["events"]:
            if e.what != "rules": continue
            t, n = e.args
            st3 = And(f_stored(*(t + (n,) + tuple(y))), Not(isLit(y[1])), Not(r.in_graph(head, y)))
            P("what the rules store reaches the graph (end %d)" % k, hy + e.conds + [st3], r.in_graph(s, y))
        # only what was stored is added
        any_stored = Or(*[Exists(e.binders, And(*(e.conds + [f_stored(*(e.args[0] + (e.args[1],) + tuple(x)))]))) for e in L["events"] if e.what == "rules"])
        P("only stored triples are added in a cycle (end %d)" % k, hy + [r.in_graph(s, x), Not(r.in_graph(head, x))], any_stored)
        _, em0 = conts(head, r.me)
        _, em1 = conts(s, r.me)
        m = z3.Const("m_err", V)
        P("recorded errors are kept between cycles (end %d)" % k, hy + [z3.Function("errors_at_head", V, B)(m)], Or(*[r.ex.match(s, Piece(p.binders, p.conds, (p.value,)), (m,)) for p in s.heap[em1.loc].pieces]))
    # frame
    for s, what in ((r.final, "closure"), ) + tuple((s, "a cycle") for s in L["continue"]):
        ops = s.heap["graph"].ops
        ok("%s only adds to the destination" % what, all(op[0] == "add" and op[1] == "D" for op in ops), str([(op[0], op[1]) for op in ops]))
    # errors are written at the end
    _, em = conts(st, r.me)
    ops = [op[2] for op in st.heap["graph"].ops]
    errops = [p for p in ops if any(isinstance(v, z3.ExprRef) and (v.eq(ERRTYPE) or v.eq(ERRPROP)) for v in p.value)]
    ok("the errors are known when post_process has ended", hasattr(r, "all_errors"))
    if not hasattr(r, "all_errors"):
        return
    m, b = z3.Const("m_err", V), z3.Const("b_node", V)
    lit = z3.Function("literal", V, V)
    known = [f for f in r.ex.facts if mentions(f, r.all_errors)]
    nodes = {}
    for p in ops:
        for v in p.value:
            if isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().name().startswith("newnode"):
                nodes.setdefault(v.decl().name(), []).append(p)
    for n, ps in nodes.items():
        d = [v for v in ps[0].value if z3.is_app(v) and v.decl().name() == n][0].decl()
        bs = [z3.Const("nb%d" % k, d.domain(k)) for k in range(d.arity())]
        known.append(z3.ForAll(bs, isBN(d(*bs)), patterns=[d(*bs)]) if bs else isBN(d()))
    known.append(z3.ForAll([m], isLit(lit(m)), patterns=[lit(m)]))
    hy = st.conds_since(0) + [r.inv] + known
    wr = lambda val: Or(*[Exists(q.binders, And(*(list(q.conds) + [Eq(a, c) for a, c in zip(q.value, val)]))) for q in errops])
    P("recorded errors are those of the phases", st.conds_since(0) + known + [r.errors_before_at(m)], r.all_errors(m))
    P("every recorded error is written", hy + [r.all_errors(m), z3.ForAll([b], z3.Not(z3.And(isBN(b), wr((b, TYPE, ERRTYPE)), wr((b, ERRPROP, lit(m))))))], FALSE)
    msgs = [q for q in errops if q.value[1].eq(ERRPROP)]
    ok("errors are written by one statement", len(msgs) == 1, "%d" % len(msgs))
    for q in errops:
        node = q.value[0]
        ok("error nodes are new blank nodes", z3.is_app(node) and node.decl().name().startswith("newnode"), str(node))
        if q.value[1].eq(ERRPROP):
            P("only recorded errors are written", list(q.conds) + known + [Eq(q.value[2], lit(m)), z3.ForAll([b], z3.Implies(lit(b) == lit(m), b == m))], r.all_errors(m))
            # one node per message: the node depends on the message alone, of which the set has one
            ok("one node per message", free_ids(node) == free_ids(q.value[2]) and len(free_ids(q.value[2])) >= 1, "%s %s" % (node, q.value[2]))
    for n, ps in nodes.items():
        ok("an error node has two triples", all((p.value[1].eq(TYPE) and p.value[2].eq(ERRTYPE)) or p.value[1].eq(ERRPROP) for p in ps) and len(ps) == 2, str([p.value for p in ps]))


def mentions(f, d):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().eq(d): return True
            todo += x.children()
    return False


def contract_obligations(led, cls):
    """the bodies of store_triple and add_error against the contracts the driver proof uses for the phases"""
    nm = cls.__name__
    run = Run(cls, {"Closure.Core.store_triple": None, "Closure.Core.add_error": None})
    x = [z3.Const("x_" + n, V) for n in "spo"]
    A = z3.Function("already_stored", V, V, V, B)
    E = z3.Function("already_recorded", V, B)
    at, em = conts(run.state, run.me)

    def state():
        st = run.state.clone()
        a = [fresh("a") for _ in range(3)]
        m = fresh("m")
        st.heap[at.loc] = Content([Piece(a, [A(*a)], tuple(a))], 0)
        st.heap[em.loc] = Content([Piece([m], [E(m)], m)], 0)
        return st

    def member(st, loc, val):
        return Or(*[run.ex.match(st, Piece(p.binders, p.conds, p.value if isinstance(p.value, tuple) else (p.value,)), val) for p in st.heap[loc].pieces])

    # store_triple
    st = state()
    t = tuple(z3.Const("t_" + n, V) for n in "spo")
    run.call("store_triple", [t], st)
    P = lambda name, hyps, goal: led.results.append(prove("%s.%s" % (nm, name), hyps, goal, facts=run.ex.facts))
    ok = lambda name, b, d="": led.results.append(Result("%s.%s" % (nm, name), "proved" if b else "failed", 0.0, "executor", d))
    new = And(*([Eq(a, b) for a, b in zip(x, t)] + [Not(isLit(t[1])), Not(run.ex.g_contains(st, "G", t)), Not(run.ex.g_contains(st, "D", t))]))
    c = st.conds_since(0)
    P("store_triple: stores exactly a new triple with a non-literal predicate", c, member(st, at.loc, x) == Or(A(*x), new))
    ok("store_triple: changes nothing else", not st.heap["graph"].ops and len(st.heap[em.loc].pieces) == 1)
    ok("store_triple: raises nothing", not run.ex.raises, str([r[0] for r in run.ex.raises]))
    # add_error: without the simplification for guards
    st = state()
    m, y = z3.Const("message", V), z3.Const("y_msg", V)
    old = run.ex.idiom_test
    run.ex.idiom_test = lambda s, st_: run.ex.eval(s.test, st_)
    try:
        run.call("add_error", [m], st)
    finally:
        run.ex.idiom_test = old
    c = st.conds_since(0)
    P("add_error: records the message and keeps the others", c, member(st, em.loc, (y,)) == Or(E(y), y == m))
    for p in st.heap[em.loc].pieces[1:]:
        P("add_error: no message twice", list(p.conds) + [E(p.value)], FALSE)
        ok("add_error: at most once", not p.binders, str(p.binders))
    ok("add_error: one place", len(st.heap[em.loc].pieces) <= 2)
    ok("add_error: changes nothing else", not st.heap["graph"].ops and len(st.heap[at.loc].pieces) == 1)
    led.used(run.ex)


DRIVER_METHODS = ["closure", "flush_stored_triples", "empty_stored_triples", "store_triple", "add_error"]


def resolve(cls, name):
    return next(c.__dict__[name] for c in cls.__mro__ if name in c.__dict__)


def g_driver(classes):
    """the driver and its helpers for Core, and for each class that overrides any of them"""
    def g(led):
        done = []
        for cls in [Core] + list(classes):
            key = tuple(id(resolve(cls, n)) for n in DRIVER_METHODS)
            if key in done:
                led.results.append(Result("%s: the driver is that of a class proved above" % cls.__name__, "proved", 0.0, "executor", ""))
                continue
            done.append(key)
            driver_obligations(led, cls)
            contract_obligations(led, cls)
    return g
