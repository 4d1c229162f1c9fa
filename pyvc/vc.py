"""Verification conditions: runs the real functions through the executor and discharges obligations with z3 (and cvc5)."""
import time
import os
import subprocess
import tempfile
import multiprocessing
from .lib import *  # noqa: F401,F403
from . import folds, spec, sym
from .spec import isvar

U_ = z3.Function("U", V, V, V, B)
D_ = z3.Function("D", V, V, V, B)
O_ = z3.Function("O", V, V, V, B)
H_ = z3.Function("H", V, V, V, B)
ReachH = z3.Function("ReachH", V, I, I, V, V, B)
f_typable = z3.Function("typable", V, V, B)     # restriction_typing_check of the class
cidx = z3.Function("container_index", V, I)
TYPE = const(spec.RDF.type)


class Result:
    def __init__(self, name, status, seconds, solver, detail=""):
        self.name, self.status, self.seconds, self.solver, self.detail = name, status, seconds, solver, detail


class Ledger:
    """obligations of one check"""
    def __init__(self):
        self.results = []
        self.functions = {}
        self.assumptions = set()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.vacuity = 0

    def failed(self):
        return [r for r in self.results if r.status != "proved"]

    def fail(self, name, detail):
        self.results.append(Result(name, "failed", 0.0, "executor", detail))

    def ok(self, name, solver="folding", seconds=0.0):
        self.results.append(Result(name, "proved", seconds, solver))

    def used(self, ex):
        for k, v in ex.used.items():
            self.functions[k] = max(v, self.functions.get(k, 0))
        for m in getattr(ex, "used_lib", ()):
            self.assumptions.add("contract of rdflib %s" % m)


def ids_in(es):
    out, seen = set(), set()
    stack = list(es)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            out.add(x.decl().name() if x.num_args() else x.get_id())
            stack.extend(x.children())
    return out


def background(formulas, paths=None):
    """axioms about the constants, tables and theories that occur"""
    names = ids_in(formulas)
    ax = []
    t = [sym._tables_by_decl[n] for n in names if isinstance(n, str) and n in sym._tables_by_decl]
    for x in t:
        ax.append(x.axiom())
    for n in names:
        if isinstance(n, str) and n in sym._entries:
            k, f, rows = sym._entries[n]
            ax += [f(a) == b for a, b in rows]
    names |= ids_in(ax)
    ax += const_axioms(names)
    names |= ids_in(ax)                  # datatypes of literals
    ax += const_axioms(names)
    uniq = {}
    for a in ax:
        uniq.setdefault(a.get_id(), a)
    ax = list(uniq.values()) + KIND_AXIOMS
    if paths is not None:
        ax += paths
    elif "Reach" in names:
        ax += folds.reach_axioms(U_) + [folds.reach_unfold_axiom(U_)]
        ax.append(reach_left(Reach, U_))
        ax.append(reach_prefix(Reach, U_))
    if "ReachH" in names and paths is None:
        ax.append(reach_compose(ReachH, H_))
        if "Reach" in names:
            ax.append(reach_mono())
    if names & {"qlen", "qat", "qsnoc", "qone"}:
        ax += folds.q_axioms()
    if "O" in names and "U" in names:
        s, p, o = [z3.Const(n, V) for n in "spo"]
        ax.append(z3.ForAll([s, p, o], z3.Implies(O_(s, p, o), U_(s, p, o)), patterns=[O_(s, p, o)]))
        ax.append(z3.ForAll([s, p, o], z3.Implies(U_(s, p, o), z3.Or(D_(s, p, o), O_(s, p, o))), patterns=[U_(s, p, o)]))
    if "D" in names:
        s, p, o = [z3.Const(n, V) for n in "spo"]
        ax.append(z3.ForAll([s, p, o], z3.Implies(D_(s, p, o), U_(s, p, o)), patterns=[D_(s, p, o)]))
    return ax


# lemmas about paths, each proved by induction in lemma_obligations()
def _rv():
    return [z3.Const(n, V) for n in ("rl", "rx", "ry", "rm")] + [z3.Const("ra", I), z3.Const("rb", I), z3.Const("rc", I)]


def reach_left(R, G):
    l, x, y, m, a, b, c = _rv()
    mid = z3.Function("left_mid_%s" % R.name(), V, I, I, V, V, V)(l, a, b, x, y)
    return z3.ForAll([l, a, b, x, y], z3.Implies(z3.And(b > a, R(l, a, b, x, y)), z3.And(G(x, litem(l, a), mid), R(l, a + 1, b, mid, y))), patterns=[R(l, a, b, x, y)])


def reach_prefix(R, G):
    l, x, y, m, a, b, c = _rv()
    f = lambda n: z3.Function("prefix_%s_%s" % (n, R.name()), V, I, I, I, V, V, V)(l, a, b, c, x, y)
    m, n = f("x"), f("y")
    return z3.ForAll([l, a, b, c, x, y], z3.Implies(z3.And(a <= c, c < b, R(l, a, b, x, y)), z3.And(R(l, a, c, x, m), G(m, litem(l, c), n))),
                     patterns=[z3.MultiPattern(R(l, a, b, x, y), litem(l, c))])


def reach_compose(R, G):
    l, x, y, m, a, b, c = _rv()
    return z3.ForAll([l, a, b, c, x, m, y], z3.Implies(z3.And(c == a + 1, b >= c, G(x, litem(l, a), m), R(l, c, b, m, y)), R(l, a, b, x, y)),
                     patterns=[z3.MultiPattern(G(x, litem(l, a), m), R(l, c, b, m, y))])


def reach_mono():
    l, x, y, m, a, b, c = _rv()
    return z3.ForAll([l, a, b, x, y], z3.Implies(Reach(l, a, b, x, y), ReachH(l, a, b, x, y)), patterns=[Reach(l, a, b, x, y)])


def U_in_H():
    s, p, o = [z3.Const(n, V) for n in "spo"]
    return z3.ForAll([s, p, o], z3.Implies(U_(s, p, o), H_(s, p, o)), patterns=[U_(s, p, o)])


def lemma_obligations(led):
    """the lemmas about Reach, by induction on the length of the path (the right end)"""
    l, x, y, m, a, b, c = _rv()
    for nm, R, G in (("U", Reach, U_), ("H", ReachH, H_)):
        def defs(R=R, G=G):
            z = z3.Const("rz", V)
            return [z3.ForAll([l, a, x, y], R(l, a, a, x, y) == (x == y), patterns=[R(l, a, a, x, y)]),
                    z3.ForAll([l, a, b, x, y], z3.Implies(b >= a, R(l, a, b + 1, x, y) == z3.Exists([m], z3.And(R(l, a, b, x, m), G(m, litem(l, b), y)))), patterns=[R(l, a, b + 1, x, y)])]
        n = z3.Const("n", I)
        cx, cy, cl, ca = z3.Const("cx", V), z3.Const("cy", V), z3.Const("cl", V), z3.Const("ca", I)
        z = z3.Const("rz", V)

        def leftp(X, Y, N):
            return z3.Implies(R(cl, ca, ca + N, X, Y), z3.Exists([z], z3.And(G(X, litem(cl, ca), z), R(cl, ca + 1, ca + N, z, Y))))
        # base: paths of length one
        cm = z3.Const("cm", V)
        inst1 = [R(cl, ca, ca + 1, cx, cy) == z3.Exists([m], z3.And(R(cl, ca, ca, cx, m), G(m, litem(cl, ca), cy))),
                 z3.ForAll([x, y], R(cl, ca, ca, x, y) == (x == y)), z3.ForAll([x, y], R(cl, ca + 1, ca + 1, x, y) == (x == y))]
        led.results.append(prove("lemma left-decompose %s: base" % nm, inst1, leftp(cx, cy, z3.IntVal(1)), raw=True))
        ih = z3.ForAll([x, y], leftp(x, y, n))
        step = [n >= 1, ih, z3.ForAll([x, y], R(cl, ca, ca + n + 1, x, y) == z3.Exists([m], z3.And(R(cl, ca, ca + n, x, m), G(m, litem(cl, ca + n), y)))),
                z3.ForAll([x, y], R(cl, ca + 1, ca + n + 1, x, y) == z3.Exists([m], z3.And(R(cl, ca + 1, ca + n, x, m), G(m, litem(cl, ca + n), y))))]
        led.results.append(prove("lemma left-decompose %s: step" % nm, step, leftp(cx, cy, n + 1), raw=True))

        def comp(X, M, Y, N):
            return z3.Implies(z3.And(G(X, litem(cl, ca), M), R(cl, ca + 1, ca + N, M, Y)), R(cl, ca, ca + N, X, Y))
        led.results.append(prove("lemma left-compose %s: base" % nm, inst1, comp(cx, cm, cy, z3.IntVal(1)), raw=True))
        ih = z3.ForAll([x, m, y], comp(x, m, y, n))
        led.results.append(prove("lemma left-compose %s: step" % nm, [ih] + step[:1] + step[2:], comp(cx, cm, cy, n + 1), raw=True))
        # a path has prefixes
        cc = z3.Const("cc", I)

        def pref(X, Y, N):
            return z3.Implies(z3.And(R(cl, ca, ca + N, X, Y), ca <= cc, cc < ca + N), z3.Exists([m, z], z3.And(R(cl, ca, cc, X, m), G(m, litem(cl, cc), z))))
        led.results.append(prove("lemma prefix %s: base" % nm, [], pref(cx, cy, z3.IntVal(0)), raw=True))
        led.results.append(prove("lemma prefix %s: step" % nm, [n >= 0, z3.ForAll([x, y], pref(x, y, n)), step[2]], pref(cx, cy, n + 1), raw=True))
    # monotone
    n = z3.Const("n", I)
    st = []
    for R, G in ((Reach, U_), (ReachH, H_)):
        st += [z3.ForAll([x, y], R(cl, ca, ca, x, y) == (x == y)),
               z3.ForAll([x, y], R(cl, ca, ca + n + 1, x, y) == z3.Exists([m], z3.And(R(cl, ca, ca + n, x, m), G(m, litem(cl, ca + n), y))))]
    led.results.append(prove("lemma paths are monotone: base", st, z3.Implies(Reach(cl, ca, ca, cx, cy), ReachH(cl, ca, ca, cx, cy)), raw=True))
    led.results.append(prove("lemma paths are monotone: step", st + [U_in_H(), n >= 0, z3.ForAll([x, y], z3.Implies(Reach(cl, ca, ca + n, x, y), ReachH(cl, ca, ca + n, x, y)))],
                             z3.Implies(Reach(cl, ca, ca + n + 1, cx, cy), ReachH(cl, ca, ca + n + 1, cx, cy)), raw=True))


def relevant_facts(facts, formulas):
    """definitional facts (`NB12(...) iff ...`) of the symbols that occur"""
    import re
    defined = re.compile(r"^(NB|K|w)\d+$")
    info = [(f, set(n for n in ids_in([f]) if isinstance(n, str) and defined.match(n))) for f in facts]
    names = set(n for n in ids_in(formulas) if isinstance(n, str))
    out = []
    while True:
        new = [x for x in info if not x[1] or x[1] & names]
        if not new:
            return out
        info = [x for x in info if not any(x is y for y in new)]
        for f, ns in new:
            out.append(f)
            names |= ns


def _quantified(f):
    stack, seen = [f], set()
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


def slow(s, r, how, seconds, name):
    """debugging: which obligations are hard"""
    if os.environ.get("VERIF_SLOW"):
        st = s.statistics() if s is not None else ()
        rl = [st[i][1] for i in range(len(st)) if st[i][0] == "rlimit count"]
        open(os.environ["VERIF_SLOW"], "a").write("%.2f %d %s %s | %s\n" % (seconds, rl[0] if rl else 0, r, how, name))


def prove(name, hyps, goal, timeout=None, raw=False, tries=3, facts=(), paths=None):
    """valid(hyps => goal)?"""
    t0 = time.time()
    hyps = [h for h in hyps if not z3.is_true(h)]
    if any(z3.is_false(h) for h in hyps) or z3.is_true(goal):
        return Result(name, "proved", 0.0, "folding")
    fs = hyps + [z3.Not(goal)]
    fs += relevant_facts(facts, fs)
    if not raw:
        fs = background(fs, paths) + fs
    last = None
    if timeout is None and LOST.value > 500:
        return Result(name, "failed", 0.0, "z3", "not attempted: too much time went into other obligations that fail")
    if timeout is None and LOST.value > 200:
        timeout = 2500
    quant = any(_quantified(f) for f in fs)
    plan = [("z3", 0, timeout)] if timeout else ([("patterns", 0, 2000)] if quant else []) + [("z3", 0, 2500), ("z3", 7, 5000), ("z3", 23, 12000)][:tries]
    for how, seed, to in plan:
        if how == "patterns":            # quantifier instantiation by patterns only
            s = z3.SimpleSolver()
            s.set("smt.mbqi", False)
            s.set("smt.auto_config", False)
        else:
            s = z3.Solver()
            if seed: s.set("random_seed", seed)
        limit(s, to)
        s.add(*fs)
        t1 = time.time()
        r = s.check()
        slow(s, r, "%s%d" % (how, seed), time.time() - t1, name)
        if r == z3.unsat:
            return Result(name, "proved", time.time() - t0, "z3")
        if r == z3.sat and how == "z3":
            m = s.model()
            return Result(name, "failed", time.time() - t0, "z3", "counter-model: %s" % str(m)[:1500])
        last = r
    if timeout is None:
        r = cvc5_check(fs, 20)
        slow(None, r, "cvc5", 0, name)
        if r == "unsat":
            return Result(name, "proved", time.time() - t0, "cvc5")
        with LOST.get_lock():
            LOST.value += time.time() - t0
    return Result(name, "failed", time.time() - t0, "z3", "solver answered %s" % last)


# seconds spent on obligations that could not be discharged (the check fails anyway; it must still end)
LOST = multiprocessing.Value("d", 0.0)


def cvc5_check(fs, seconds):
    s = z3.Solver()
    s.add(*fs)
    text = "(set-logic ALL)\n" + s.to_smt2()
    try:
        import shutil
        exe = shutil.which("cvc5")
        if exe is None:
            return "missing"
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(text)
        r = subprocess.run([exe, "--tlimit=%d" % (seconds * 1000), f.name], capture_output=True, text=True, timeout=seconds + 5)
        return r.stdout.strip().splitlines()[0] if r.stdout.strip() else "error"
    except Exception:
        return "error"
    finally:
        try:
            os.unlink(f.name)
        except Exception:
            pass


# ----- formulas of rule atoms ------------------------------------------------------------------------------------
def zvar(name, sort=None):
    return z3.Const("q_" + name.lstrip("?"), sort if sort is not None else (I if name in ("?i", "?j") else V))


def envof(rule, mk=zvar):
    return {x: mk(x) for x in rule.vars}


def zt(x, env):
    if isvar(x):
        return env[x]
    if isinstance(x, int):
        return x
    return const(x)


def atom(a, env, G=U_, R=Reach, typable=None, pos=False):
    k = a[0]
    x = [zt(y, env) for y in a[1:]]
    if k == "T":
        return G(*x)
    if k == "MEM":
        return And(x[1] >= 0, x[1] < llen(x[0]), Eq(x[2], litem(x[0], x[1])))
    if k == "LT":
        return x[0] < x[1]
    if k == "NEQ":
        return Not(Eq(x[0], x[1]))
    if k == "NONEMPTY":
        return llen(x[0]) >= 1
    if k == "VAL":
        return And(isLit(x[0]), Eq(f_value(x[0]), const(x[1])))
    if k == "TYPABLE":
        return (typable or (lambda v, t: TRUE))(*x)
    if k == "ALLTYPE":
        i = fresh("k", I)
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(x[0])), G(x[1], TYPE, litem(x[0], i))), patterns=[litem(x[0], i)])
    if k == "PATH":
        return And(llen(x[0]) >= 1, R(x[0], z3.IntVal(0), llen(x[0]), x[1], x[2]))
    if k == "KEYS":
        if pos:       # as a hypothesis: choose the common values (finite choice: a sequence of them exists)
            q = fresh("keyvals", Q)
            i = fresh("k", I)
            return And(llen(x[0]) >= 1, q_len(q) == llen(x[0]),
                       z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(x[0])), z3.And(G(x[1], litem(x[0], i), q_at(q, i)), G(x[2], litem(x[0], i), q_at(q, i)))),
                                 patterns=[q_at(q, i)]))
        i, v = fresh("k", I), fresh("w")
        return And(llen(x[0]) >= 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(x[0])),
                   z3.Exists([v], z3.And(G(x[1], litem(x[0], i), v), G(x[2], litem(x[0], i), v))))))
    raise ValueError(a)


def rule_axiom(r, G=H_, R=ReachH, typable=None):
    """forall vars: premises => conclusion, in G"""
    env = envof(r)
    prem = [atom(a, env, G, R, typable) for a in r.prem]
    concl = G(*[zt(x, env) for x in r.concl]) if r.concl is not None else FALSE
    vs = list(env.values())
    pats = []
    for a, f in zip(r.prem, prem):
        if a[0] == "T": pats.append(f)
        elif a[0] == "MEM": pats.append(litem(env[a[1]], env[a[2]]))
        elif a[0] == "PATH": pats.append(R(env[a[1]], z3.IntVal(0), llen(env[a[1]]), env[a[2]], env[a[3]]))
    # equations of MEM: replace the variable by the item
    eqs = [(env[a[3]], litem(env[a[1]], env[a[2]])) for a in r.prem if a[0] == "MEM"]
    body = z3.Implies(z3.And(*prem), concl)
    if eqs:
        body = z3.substitute(body, *eqs)
        pats = [z3.substitute(p, *eqs) for p in pats]
        gone = set(e[0].get_id() for e in eqs)
        vs = [v for v in vs if v.get_id() not in gone]
    covered = set()
    for p in pats:
        covered |= free_ids(p)
    if all(v.get_id() in covered for v in vs) and vs:
        return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]])
    return z3.ForAll(vs, body) if vs else body


def rule_premise(r, env, G, R, typable=None):
    return [atom(a, env, G, R, typable) for a in r.prem]


# ----- running a class's code -------------------------------------------------------------------------------------
def c_store(ex, st, args, kw):
    me, t = args
    t = tuple(ex.to_V(x) for x in ex.unpack(st, t, 3))
    ex.emit(st, st.heap[me.loc]["added_triples"].loc, t)
    return None


def c_error(ex, st, args, kw):
    me, m = args
    loc = st.heap[me.loc]["error_messages"].loc
    ex.emit(st, loc, ex.to_V(m) if not isinstance(m, Opaque) else const(m))
    return None


def c_index(ex, st, args, kw):
    x = ex.to_V(args[0])
    st.assume(cidx(x) >= 0)
    return cidx(x)


class RD:
    """contract of restricted datatype objects (RestrictedDatatype): attributes and value check"""


is_RD = z3.Function("isRestrictedDatatype", V, B)
rd_datatype = z3.Function("rd_datatype", V, V)
rd_base = z3.Function("rd_base", V, V)
rd_accepts = z3.Function("rd_accepts", V, V, B)          # checkLiteral(literal), decided under C14
rd_raises = z3.Function("rd_raises", V, V, B)
rd_accepts_v = z3.Function("rd_accepts_value", V, V, B)    # checkValue(value)
rd_raises_v = z3.Function("rd_raises_value", V, V, B)


def c_extract(ex, st, args, kw):
    b = fresh("rd")
    c = ex.new_cont(st, "list")
    ex.emit_piece(st, c.loc, Piece([b], [is_RD(b)], b))
    return c


CONTRACTS = {"Closure.Core.store_triple": c_store, "Closure.Core.add_error": c_error, "Closure._container_index": c_index,
             "RestrictedDatatype.extract_faceted_datatypes": c_extract}


class Ex(Interp):
    def __init__(self, contracts=None):
        super().__init__(dict(CONTRACTS, **(contracts or {})))
        self.fold_hook = folds.fold_hook
        self.log = []

    def event(self, st, what, args, kw):
        self.log.append((what, args, kw, st.binders_since(0), st.conds_since(0)))

    def getattr(self, st, recv, attr):
        if isinstance(recv, GraphRef):
            if attr == "store":
                return STORES.setdefault("other" if recv.part == "X" else "own", Opaque("store" + ("X" if recv.part == "X" else "")))
            if attr in ("default_context", "default_graph"):
                return GraphRef("D")
        if isinstance(recv, z3.ExprRef) and recv.sort() == V and attr in ("datatype", "base_type", "checkValue", "checkLiteral", "toPython", "converter") and self.is_rd(st, recv):
            if attr == "datatype": return rd_datatype(recv)
            if attr == "base_type": return rd_base(recv)
            if attr == "toPython": return z3.Function("rd_toPython", V, V)(recv)
            if attr == "checkLiteral": return Opaque("checkLiteral", call=self.check_value(recv, rd_accepts, rd_raises))
            return Opaque("checkValue", call=self.check_value(recv, rd_accepts_v, rd_raises_v))
        return super().getattr(st, recv, attr)

    def is_rd(self, st, x):
        want = is_RD(x).get_id()
        for k, c in st.ctx:
            if k == "c":
                for y in (c.children() if z3.is_and(c) else [c]):
                    if y.get_id() == want:
                        return True
        return False

    def check_value(self, rd, accepts, raises):
        def call(ex, st, args, kw):
            v = ex.to_V(args[0])
            ex.raise_if(st, Exception, raises(rd, v), "check of incomparable values")
            return accepts(rd, v)
        return call


STORES = {}


class Run:
    """symbolic run of one method of a class, for an arbitrary object state"""
    def __init__(self, cls, contracts=None, havoc=True, destination="D", dataset=False):
        self.cls = cls
        self.ex = ex = Ex(contracts)
        st = State()
        st.heap["graph"] = GLog(())
        self.axioms, self.daxioms, self.rdfs = [z3.Const(n, B) for n in ("axioms_flag", "daxioms_flag", "rdfs_flag")]
        ex.graph_isinstance = lambda v, classes: z3.BoolVal(Graph in classes or (dataset and any(issubclass(Dataset, c) for c in classes)))
        self.me = ex.new_obj(st, cls, {})
        dest = {"D": GraphRef("D"), None: None, "name": "name"}.get(destination, destination)
        init = next(c.__dict__["__init__"] for c in cls.__mro__ if "__init__" in c.__dict__)
        owner = next(c for c in cls.__mro__ if "__init__" in c.__dict__)
        ex.call_function(st, init, [self.me, GraphRef("G"), self.axioms, self.daxioms], {"rdfs": self.rdfs, "destination": dest}, owner)
        self.init_state = st
        attrs = dict(st.heap[self.me.loc])
        # what holds at the end of the constructor is not repeated with every element
        known = set(c.get_id() for k, c in st.ctx if k == "c")
        for k, v in list(st.heap.items()):
            if isinstance(v, Content):
                st.heap[k] = Content([p if not any(c.get_id() in known for c in p.conds) else Piece(p.binders, [c for c in p.conds if c.get_id() not in known], p.value, p.origin)
                                      for p in v.pieces], v.depth)
        # attributes as set by the constructor; contents of containers are arbitrary afterwards
        s2 = State()
        s2.heap = dict(st.heap)
        s2.heap["graph"] = GLog(())
        self.content = {}
        self.init_facts = [c for k, c in st.ctx if k == "c"]
        for k, v in list(attrs.items()):
            if isinstance(v, Cont):
                kind = v.kind
                loc = ex.newloc()
                ps = []
                if k == "restricted_datatypes":
                    b = fresh("rd")
                    ps = [Piece([b], [is_RD(b)], b)]
                elif havoc and k not in ("added_triples", "error_messages"):
                    n = {"bnodes": 1}.get(k, 1)
                    P = z3.Function("has_%s" % k, *([V] * n + [B]))
                    b = fresh("h")
                    ps = [Piece([b], [P(b)], b, origin="entry")]
                s2.heap[loc] = Content(ps, 0)
                attrs[k] = Cont(loc, kind)
        s2.heap[self.me.loc] = attrs
        self.state = s2

    def loc(self, attr):
        return self.state.heap[self.me.loc][attr].loc

    def method(self, name):
        for c in self.cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name], c
        raise AttributeError(name)

    def call(self, name, args, st=None):
        f, c = self.method(name)
        st = st or self.state
        return self.ex.call_function(st, f, [self.me] + list(args), {}, c)


class RulesRun(Run):
    """rules(t, cycle) for an arbitrary triple of the graph"""
    def __init__(self, cls, contracts=None):
        super().__init__(cls, contracts)
        self.t = tuple(z3.Const("t_" + x, V) for x in "spo")
        self.cycle = z3.Const("cycle", I)
        st = self.state
        st.ctx += [("b", x) for x in self.t]
        st.assume(U_(*self.t))
        st.assume(self.cycle >= 1)
        self.call("rules", [self.t, self.cycle])
        self.emissions = list(st.heap[st.heap[self.me.loc]["added_triples"].loc].pieces)
        self.errors = list(st.heap[st.heap[self.me.loc]["error_messages"].loc].pieces)
        self.graph_ops = st.heap["graph"].ops

    def at(self, piece, t):
        """the piece for a given triple"""
        pairs = list(zip(self.t, t))
        ids = set(x.get_id() for x in self.t)
        conds = [subst(c, pairs) for c in piece.conds]
        bs = [b for b in piece.binders if b.get_id() not in ids]
        val = tuple(subst(v, pairs) for v in piece.value) if isinstance(piece.value, tuple) else None
        return bs, conds, val
