"""Sorts, term constants and folding constructors of the verification-condition language.

One uninterpreted sort V holds RDF terms and the Python values derived from them (Python values are taken up to
Python's ==).  Named constants are pairwise different, by construction of the folding (and by the uid axioms given to
the solver)."""
import itertools
import z3
from . import load  # noqa: F401
from rdflib import URIRef, Literal, BNode

V = z3.DeclareSort("V")
B = z3.BoolSort()
I = z3.IntSort()
isURI = z3.Function("isURI", V, B)
isBN = z3.Function("isBN", V, B)
isLit = z3.Function("isLit", V, B)
f_value = z3.Function("value", V, V)        # Literal.value
f_datatype = z3.Function("datatype", V, V)  # Literal.datatype
f_lang = z3.Function("language", V, V)
f_str = z3.Function("str", V, V)            # str(term)
f_toPython = z3.Function("toPython", V, V)
vint = z3.Function("vint", I, V)
llen = z3.Function("llen", V, I)            # rdf list (as read by Graph.items): length, members
litem = z3.Function("litem", V, I, V)
uid = z3.Function("uid", V, I)

_consts = {}
_by_ast = {}
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
_counter = itertools.count()


RATE = 60000          # z3 resource units that pass in a millisecond on this machine, generously


def limit(solver, ms):
    """limits a solver by work done, not by time: the answer is the same on a loaded machine (the time limit is a backstop)"""
    solver.set("rlimit", ms * RATE)
    solver.set("timeout", ms * 3)


def short(x):
    s = str(x)
    for sep in ("#", "/"):
        if sep in s:
            s = s.rsplit(sep, 1)[1] or s
    return s


def const(x):
    """The V constant of a concrete Python object that is used as a term or value."""
    if isinstance(x, bool):
        key = ("int", int(x))           # True == 1 in Python
    elif isinstance(x, int):
        key = ("int", x)
    elif isinstance(x, (URIRef, BNode, Literal)):
        key = (type(x).__name__, x.n3() if not isinstance(x, URIRef) else str(x))
    elif x is None:
        key = ("None",)
    elif isinstance(x, str):
        key = ("str", x)
    else:
        key = ("obj", id(x))
    if key not in _consts:
        c = z3.Const("%s!%d" % (short(x) if not callable(x) else getattr(x, "__name__", "obj"), len(_consts)), V)
        _consts[key] = (c, x, len(_consts))
        _by_ast[c.get_id()] = (c, x)
    return _consts[key][0]


def is_const(e):
    return e.get_id() in _by_ast


def concrete_of(e):
    return _by_ast[e.get_id()][1]


def const_axioms(names=None):
    out = []
    for key, (c, x, n) in _consts.items():
        if names is not None and c.get_id() not in names:
            continue
        out.append(uid(c) == n)
        kinds = (isinstance(x, URIRef), isinstance(x, BNode), isinstance(x, Literal))
        for f, k in zip((isURI, isBN, isLit), kinds):
            out.append(f(c) if k else z3.Not(f(c)))
        if isinstance(x, Literal):
            out.append(f_datatype(c) == const(x.datatype))
    return out


_x = z3.Const("x", V)
KIND_AXIOMS = [z3.ForAll([_x], z3.And(z3.Not(z3.And(isURI(_x), isBN(_x))), z3.Not(z3.And(isURI(_x), isLit(_x))),
                                     z3.Not(z3.And(isBN(_x), isLit(_x)))), patterns=[isURI(_x), isBN(_x), isLit(_x)]),
               z3.ForAll([_x], llen(_x) >= 0, patterns=[llen(_x)])]


def fresh(name="v", sort=V):
    return z3.Const("%s@%d" % (name, next(_counter)), sort)


# ----- tables: finite sets of constant tuples with a predicate symbol -------------------------------------------
class Table:
    def __init__(self, name, rows):
        rows = [r if isinstance(r, tuple) else (r,) for r in rows]
        self.rows = rows
        self.arity = len(rows[0]) if rows else 1
        self.keys = set(tuple(const(a).get_id() for a in r) for r in rows)
        self.fun = z3.Function("T_%s" % name, *([V] * self.arity + [B]))

    def has(self, *args):
        if all(is_const(a) for a in args):
            return z3.BoolVal(tuple(a.get_id() for a in args) in self.keys)
        return self.fun(*args)

    def expand(self, *args):
        return Or(*[And(*[Eq(a, const(c)) for a, c in zip(args, r)]) for r in self.rows])

    def axiom(self):
        vs = [z3.Const("t%d" % i, V) for i in range(self.arity)]
        return z3.ForAll(vs, self.fun(*vs) == self.expand(*vs), patterns=[self.fun(*vs)])

    def ground_axioms(self):
        return [self.fun(*[const(c) for c in r]) for r in self.rows]


_tables = {}
_tables_by_decl = {}


def table(rows, name="tab"):
    rows = [r if isinstance(r, tuple) else (r,) for r in rows]
    key = tuple(sorted(set(tuple(const(a).get_id() for a in r) for r in rows)))
    if key not in _tables:
        t = Table("%s%d" % (name, len(_tables)), rows)
        _tables[key] = t
        _tables_by_decl[t.fun.name()] = t
    return _tables[key]


def table_of(decl):
    return _tables_by_decl.get(decl.name())


_entries = {}


def entry_fun(d):
    """the function of a dictionary (key -> value), for keys that are terms; one per content"""
    d = {k: v if isinstance(v, z3.ExprRef) else const(v) for k, v in d.items()}
    key = tuple(sorted((const(k).get_id(), v.get_id()) for k, v in d.items()))
    for n, (k, f, _) in _entries.items():
        if k == key: return f
    n = "entry_%d" % len(_entries)
    f = z3.Function(n, V, V)
    _entries[n] = (key, f, [(const(k), v) for k, v in d.items()])
    return f


# ----- folding constructors ---------------------------------------------------------------------------------------
def Eq(a, b):
    if a.sort() != b.sort():
        if a.sort() == V and b.sort() == I:
            b = vint(b)
        elif a.sort() == I and b.sort() == V:
            a = vint(a)
        else:
            raise TypeError("Eq %s %s" % (a.sort(), b.sort()))
    if a.eq(b):
        return TRUE
    if a.sort() == V and is_const(a) and is_const(b):
        return FALSE
    if a.sort() == B:
        if z3.is_true(a): return b
        if z3.is_true(b): return a
        if z3.is_false(a): return Not(b)
        if z3.is_false(b): return Not(a)
    if a.sort() == I:
        return z3.simplify(a == b)
    # orientation: constants to the right
    if a.sort() == V and is_const(a):
        a, b = b, a
    # if-then-else distribution over constants
    if z3.is_app_of(a, z3.Z3_OP_ITE) and a.sort() == V:
        c, t, e = a.children()
        t2, e2 = Eq(t, b), Eq(e, b)
        return Or(And(c, t2), And(Not(c), e2))
    return a == b


def Not(a):
    if z3.is_true(a): return FALSE
    if z3.is_false(a): return TRUE
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


# what is known about an expression, kept for as long as the process lives (so the identifiers stay its own)
_info = {}
_TAGS = {z3.Z3_OP_AND: "and", z3.Z3_OP_OR: "or", z3.Z3_OP_NOT: "not", z3.Z3_OP_EQ: "eq", z3.Z3_OP_TRUE: "true", z3.Z3_OP_FALSE: "false"}


def info(x):
    """(expression, tag, children or None)"""
    r = _info.get(x.get_id())
    if r is None:
        tag, ch = "other", ()
        if z3.is_quantifier(x):
            tag, ch = "q", (x.body(),)
        elif z3.is_app(x):
            ch = tuple(x.children())
            k = x.decl().kind()
            tag = _TAGS.get(k, "const" if not ch and k == z3.Z3_OP_UNINTERPRETED else "app")
        r = _info[x.get_id()] = [x, tag, ch, None]
    return r


def And(*xs):
    out, seen = [], set()
    stack = list(xs)[::-1]
    while stack:
        x = stack.pop()
        if x is True:
            continue
        if x is False:
            return FALSE
        _, tag, ch, _ = info(x)
        if tag == "true":
            continue
        if tag == "false":
            return FALSE
        if tag == "and":
            stack.extend(reversed(ch))
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    eqs = {}
    for x in out:
        _, tag, ch, _ = info(x)
        if tag == "not" and ch[0].get_id() in seen:
            return FALSE
        # contradictory equalities with constants
        if tag == "eq" and ch[0].sort() == V and is_const(ch[1]) and not is_const(ch[0]):
            k = ch[0].get_id()
            if k in eqs and eqs[k] != ch[1].get_id():
                return FALSE
            eqs[k] = ch[1].get_id()
    if not out: return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out, seen = [], set()
    for x in xs:
        if x is True:
            return TRUE
        if x is False:
            continue
        _, tag, ch, _ = info(x)
        if tag == "true":
            return TRUE
        if tag == "false":
            continue
        for y in (ch if tag == "or" else (x,)):
            if y.get_id() not in seen:
                seen.add(y.get_id())
                out.append(y)
    for x in out:
        _, tag, ch, _ = info(x)
        if tag == "not":
            a = info(ch[0])
            if ch[0].get_id() in seen or (a[1] == "or" and all(c.get_id() in seen for c in a[2])):
                return TRUE
    if not out: return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    if a.sort() == B:
        return Or(And(c, a), And(Not(c), b))
    return z3.If(c, a, b)


def free_ids(e, cache=None):
    """ids of the uninterpreted constants (0-ary) occurring in e"""
    r = info(e)
    if r[3] is not None:
        return r[3]
    stack = [e]
    while stack:
        x = stack[-1]
        i = info(x)
        if i[3] is not None:
            stack.pop()
            continue
        todo = [c for c in i[2] if info(c)[3] is None]
        if todo:
            stack.extend(todo)
            continue
        i[3] = frozenset([x.get_id()]) if i[1] == "const" else frozenset().union(*[info(c)[3] for c in i[2]])
        stack.pop()
    return r[3]


def Exists(bs, body):
    body = And(body) if not isinstance(body, (list, tuple)) else And(*body)
    bs = list(bs)
    # one-point rule
    changed = True
    while changed and bs:
        changed = False
        conj = body.children() if z3.is_and(body) else [body]
        ids = {b.get_id(): b for b in bs}
        for c in conj:
            if z3.is_eq(c):
                for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if l.get_id() in ids and l.get_id() not in free_ids(r):
                        body = subst(And(*[d for d in conj if d.get_id() != c.get_id()]), [(l, r)])
                        bs = [b for b in bs if b.get_id() != l.get_id()]
                        changed = True
                        break
            elif c.get_id() in ids:
                body = subst(body, [(c, TRUE)])
                changed = True
            if changed:
                break
    fv = free_ids(body)
    bs = [b for b in bs if b.get_id() in fv]
    if z3.is_true(body) or z3.is_false(body) or not bs:
        return body
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_UNINTERPRETED and body.num_args() == len(bs) and body.decl().name() in _tables_by_decl:
        a = [x.get_id() for x in body.children()]
        if len(set(a)) == len(a) and set(a) == set(b.get_id() for b in bs):
            return z3.BoolVal(bool(_tables_by_decl[body.decl().name()].rows))
    if z3.is_or(body):
        return Or(*[Exists(bs, c) for c in body.children()])
    conj = body.children() if z3.is_and(body) else [body]
    ids = set(b.get_id() for b in bs)
    out = [c for c in conj if not (free_ids(c) & ids)]
    inn = [c for c in conj if free_ids(c) & ids]
    return And(*(out + [z3.Exists(bs, And(*inn))]))


def ForAll(bs, body):
    return Not(Exists(bs, Not(body)))


def fold(e, _memo=None):
    """re-applies the folding constructors bottom up (after a substitution)"""
    memo = {} if _memo is None else _memo
    if e.get_id() in memo:
        return memo[e.get_id()][1]
    _, tag, kids, _ = info(e)
    if tag == "q":
        r = e
    elif kids:
        ch = [fold(c, memo) for c in kids]
        k = e.decl().kind()
        if k == z3.Z3_OP_AND: r = And(*ch)
        elif k == z3.Z3_OP_OR: r = Or(*ch)
        elif k == z3.Z3_OP_NOT: r = Not(ch[0])
        elif k == z3.Z3_OP_EQ: r = Eq(*ch)
        elif k == z3.Z3_OP_IMPLIES: r = Implies(*ch)
        elif k == z3.Z3_OP_ITE: r = If(*ch)
        elif k == z3.Z3_OP_UNINTERPRETED:
            t = table_of(e.decl())
            r = t.has(*ch) if t is not None else e.decl()(*ch)
            if e.decl().eq(isURI) or e.decl().eq(isBN) or e.decl().eq(isLit):
                if is_const(ch[0]):
                    x = concrete_of(ch[0])
                    r = z3.BoolVal(isinstance(x, {"isURI": URIRef, "isBN": BNode, "isLit": Literal}[e.decl().name()]))
        else:
            r = z3.simplify(e.decl()(*ch)) if ch[0].sort() == I else e.decl()(*ch)
    else:
        r = e
    memo[e.get_id()] = (e, r)
    return r


def subst(e, pairs):
    if pairs and all(info(l)[1] == "const" for l, _ in pairs):
        f = free_ids(e)
        pairs = [(l, r) for l, r in pairs if l.get_id() in f]
    return fold(z3.substitute(e, *pairs)) if pairs else e
