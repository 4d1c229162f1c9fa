"""Contracts of what the code under verification calls outside the package: RDFLib graph operations, containers,
strings and builtins.  These contracts are assumed (listed as trusted in the evidence)."""
from .interp import *  # noqa: F401,F403
from .interp import carried
from . import fmt
import itertools
import functools
import collections
import re as _re

TRUSTED = {
    "Graph.triples": "yields exactly the triples of the graph matching the pattern (None matches anything)",
    "Graph.items": "returns a finite sequence of terms determined by the list node and the graph",
    "Graph.add": "the triple is in the graph afterwards, nothing else changes",
    "Graph.remove": "the triple is not in the graph afterwards, nothing else changes",
    "Literal.value/datatype/language": "attributes are functions of the literal",
}
PAT = {"triples": None, "objects": ("s", "p"), "subjects": ("p", "o"), "predicates": ("s", "o"), "subject_objects": ("p",),
       "predicate_objects": ("s",), "subject_predicates": ("o",)}
KW = {"subject": "s", "predicate": "p", "object": "o"}
OUT = {"objects": "o", "subjects": "s", "predicates": "p", "subject_objects": "so", "predicate_objects": "po", "subject_predicates": "sp"}


def project(bag, letters):
    idx = ["spo".index(c) for c in letters]

    def pv(t):
        return t[idx[0]] if len(idx) == 1 else tuple(t[i] for i in idx)
    return Bag([Piece(p.binders, p.conds, pv(p.value), p.origin) for p in bag.pieces], lazy=bag.lazy)


def graph_method(ex, st, g, name, args, kwargs):
    ex.used_lib = getattr(ex, "used_lib", set())
    ex.used_lib.add("Graph.%s" % name)
    if name == "triples":
        pat = args[0]
        pat = ex.unpack(st, pat, 3)
        return ex.g_triples(st, g.part, pat)
    if name in PAT:
        d = dict(zip(PAT[name], args))
        for k, v in kwargs.items():
            if k in KW: d[KW[k]] = v
            elif k != "unique": raise Unsupported("%s(%s=)" % (name, k))
        return project(ex.g_triples(st, g.part, [d.get(c) for c in "spo"]), OUT[name])
    if name == "items":
        l = ex.to_V(args[0])
        ex.reads.append("graph")
        return Seq(llen(l), lambda i, l=l: litem(l, i if isinstance(i, z3.ExprRef) else z3.IntVal(i)), key=(l, z3.IntVal(0)))
    if name == "add":
        t = tuple(ex.unpack(st, args[0], 3))
        ex.gop(st, "add", g.part, tuple(ex.to_V(x) for x in t))
        return g
    if name == "addN":
        for p in ex.as_pieces(st, args[0]):
            s2 = st.clone()
            c = st.heap["graph"]
            q = Piece(tuple(st.binders_since(0)) + p.binders, tuple(st.conds_since(0)) + tuple(p.conds), tuple(ex.to_V(x) for x in p.value[:3]), ex.where())
            st.heap["graph"] = GLog(c.ops + (("add", g.part, q),))
        return g
    if name == "remove":
        t = ex.unpack(st, args[0], 3)
        if any(x is None for x in t):
            bs = [fresh("r") for x in t if x is None]
            it = iter(bs)
            v = tuple(next(it) if x is None else ex.to_V(x) for x in t)
            s2 = st.clone()
            for b in bs: s2.ctx.append(("b", b))
            c = st.heap["graph"]
            st.heap["graph"] = GLog(c.ops + (("remove", g.part, Piece(s2.binders_since(0), s2.conds_since(0), v, ex.where())),))
            return g
        ex.gop(st, "remove", g.part, tuple(ex.to_V(x) for x in t))
        return g
    if name in ("bind", "parse", "serialize"):
        ex.event(st, "graph." + name, [g] + list(args), kwargs)
        return Opaque("serialized") if name == "serialize" else g
    if name in ("get_context", "graph"):
        ex.event(st, "graph.get_context", [g] + list(args), kwargs)
        return GraphRef("N")
    if name in ("value",):
        d = dict(zip("spo", list(args) + [None] * 3))
        for k, v in kwargs.items():
            if k in KW: d[KW[k]] = v
        free = [c for c in "spo" if d.get(c) is None]
        if len(free) != 1:
            raise Unsupported("Graph.value")
        bag = project(ex.g_triples(st, g.part, [d.get(c) for c in "spo"]), free[0])
        ne = ex.truth(st, bag)
        s2 = st.clone()
        s2.assume(ne)
        x = ex.some_element(s2, bag)
        st.ctx += [e for e in [("c", Implies(ne, And(*[c for k, c in s2.ctx[len(st.ctx) + (0 if z3.is_true(ne) else 1):] if k == "c"])))]]
        return Phi([(ne, x), (Not(ne), None)])
    if name == "__contains__":
        return ex.contains(st, g, args[0])
    raise Unsupported("Graph.%s" % name)


def cont_method(ex, st, c, name, args, kwargs):
    kind = c.kind
    if name in ("append", "add"):
        ex.emit(st, c.loc, args[0])
        c.literal = None if getattr(c, "literal", None) is not None else None
        return None
    if name in ("extend", "update"):
        for a in args:
            ex.extend(st, c, a)
        return None
    if name == "items" and kind == "ddset":
        return Bag([Piece(p.binders, p.conds, (p.value[0], DictSlot(c, p.value[0]))) for p in ex.cont_pieces(st, c)])
    if name == "items" and kind == "dict":
        return Bag(ex.cont_pieces(st, c))
    if name == "keys" and kind in ("dict", "ddset"):
        return Bag([Piece(p.binders, p.conds, p.value[0]) for p in ex.cont_pieces(st, c)])
    if name == "values" and kind == "dict":
        return Bag([Piece(p.binders, p.conds, p.value[1]) for p in ex.cont_pieces(st, c)])
    if name == "values" and kind == "ddset":
        # the sets of a defaultdict(set): one per key
        ps = ex.cont_pieces(st, c)
        return Bag([Piece(p.binders, p.conds, DictSlot(c, p.value[0])) for p in ps])
    if name == "get" and kind == "dict":
        return dict_get(ex, st, c, args[0], args[1] if len(args) > 1 else None)
    if name == "setdefault" and kind == "ddset":
        return DictSlot(c, args[0])
    if name == "copy":
        return Bag(ex.as_pieces(st, c))
    if name in ("union",):
        return Bag(sum([ex.as_pieces(st, a) for a in args], list(ex.as_pieces(st, c))))
    if name in ("intersection", "isdisjoint", "issubset", "difference"):
        return set_method(ex, st, c, name, args)
    raise Unsupported("%s.%s" % (kind, name))


def set_method(ex, st, c, name, args):
    if name == "difference":
        return ex.binop(st, ast.Sub, c if isinstance(c, (Bag, Cont)) else Bag(ex.as_pieces(st, c)), args[0])
    inter = Bag([Piece(p.binders, list(p.conds) + [ex.contains(st, args[0], p.value)], p.value) for p in ex.as_pieces(st, c)])
    if name == "intersection": return inter
    if name == "isdisjoint": return Not(ex.truth(st, inter))
    diff = Bag([Piece(p.binders, list(p.conds) + [Not(ex.contains(st, args[0], p.value))], p.value) for p in ex.as_pieces(st, c)])
    return Not(ex.truth(st, diff))


def dict_get(ex, st, c, key, default):
    present = ex.contains(st, c, key)
    s = st.clone()
    s.assume(present)
    v = DictSlot.get(ex, s, c, key)
    return ex.ite(present, v, default)


def term_method(ex, st, x, name, args, kwargs):
    if x.sort() == V and is_const(x):
        o = concrete_of(x)
        if all(not isinstance(a, z3.ExprRef) for a in args):
            return getattr(o, name)(*args, **kwargs)
    if name == "toPython":
        return f_toPython(x)
    if name == "n3":
        ex.raise_if(st, Exception, And(Not(isLit(x)), z3.Function("n3_fails", V, B)(x)))      # a URI that is not one
        return fresh("n3")
    if name in ("__eq__", "eq"):
        return ex.eq(st, x, args[0])
    raise Unsupported("method %s of a term" % name)


def call_method(ex, st, recv, name, args, kwargs):
    if isinstance(recv, GraphRef):
        return graph_method(ex, st, recv, name, args, kwargs)
    if isinstance(recv, Cont):
        return cont_method(ex, st, recv, name, args, kwargs)
    if isinstance(recv, (list, dict, set)):
        l = ex.lifted(st, recv)
        if isinstance(l, Cont):
            return cont_method(ex, st, l, name, args, kwargs)
        if name in ("append", "add", "extend", "update", "clear", "pop", "remove", "insert", "setdefault", "discard"):
            return mutate_concrete(ex, st, recv, name, args, kwargs)
        if name == "get" and isinstance(recv, dict):
            return ex.dict_lookup(st, recv, args[0], args[1] if len(args) > 1 else None, False)
        if name in ("items", "keys", "values"):
            return list(getattr(recv, name)())
        if any(isinstance(a, (z3.ExprRef, Phi, Bag, Cont, Seq)) for a in args):
            if isinstance(recv, set) and name in ("intersection", "isdisjoint", "issubset", "difference"):
                return set_method(ex, st, recv, name, args)
            if isinstance(recv, set) and name == "union":
                return Bag(sum([ex.as_pieces(st, a) for a in args], list(ex.as_pieces(st, recv))))
            raise Unsupported("%s on a concrete container" % name)
        return getattr(recv, name)(*args, **kwargs)
    if isinstance(recv, DictSlot):
        if name == "add":
            ex.emit(st, recv.cont.loc, (recv.key, args[0]))
            return None
        if name in ("update", "extend"):
            recv.update(ex, st, args[0])
            return None
        if name == "append":
            ex.emit(st, recv.cont.loc, (recv.key, args[0]))
            return None
    if isinstance(recv, Bag):
        if name in ("intersection", "isdisjoint", "issubset", "difference"):
            return set_method(ex, st, recv, name, args)
        if name == "union":
            return Bag(sum([ex.as_pieces(st, a) for a in args], list(recv.pieces)))
        if name in ("items",):
            return recv
    if isinstance(recv, z3.ExprRef):
        return term_method(ex, st, recv, name, args, kwargs)
    if isinstance(recv, Opaque):
        h = recv.attrs.get("method")
        if h is not None:
            return h(ex, st, recv, name, args, kwargs)
    raise Unsupported("method %s of %r" % (name, recv))


def mutate_concrete(ex, st, obj, name, args, kwargs):
    return cont_method(ex, st, ex.lift(st, obj), name, args, kwargs)


def isinstance_(ex, st, v, cls):
    classes = cls if isinstance(cls, tuple) else (cls,)
    if isinstance(v, Phi):
        return Or(*[And(c, isinstance_(ex, st, x, cls)) for c, x in v.alts])
    if isinstance(v, InitV):
        carried(v)
    if isinstance(v, z3.ExprRef):
        if v.sort() == V:
            if is_const(v):
                return z3.BoolVal(isinstance(concrete_of(v), classes))
            out = []
            for c in classes:
                if c is Literal: out.append(isLit(v))
                elif c is URIRef: out.append(isURI(v))
                elif c is BNode: out.append(isBN(v))
                elif c is rdflib.term.Identifier or c is rdflib.term.Node: out.append(Or(isLit(v), isURI(v), isBN(v)))
                elif c is rdflib.term.IdentifiedNode: out.append(Or(isURI(v), isBN(v)))
                else: raise Unsupported("isinstance(term, %s)" % c)
            return Or(*out)
        if v.sort() == I:
            return z3.BoolVal(any(issubclass(int, c) for c in classes))
        if v.sort() == B:
            return z3.BoolVal(any(issubclass(bool, c) for c in classes))
        raise Unsupported("isinstance")
    if isinstance(v, GraphRef):
        h = getattr(ex, "graph_isinstance", None)
        if h is not None:
            return h(v, classes)
        out = [z3.Const("is_%s" % c.__name__, B) for c in classes if c is not Graph]
        return TRUE if Graph in classes else Or(*out)
    if isinstance(v, Obj):
        return z3.BoolVal(issubclass(v.cls, classes))
    if isinstance(v, Cont):
        ty = {"list": list, "set": set, "dict": dict, "ddset": collections.defaultdict}[v.kind]
        return z3.BoolVal(issubclass(ty, classes))
    if isinstance(v, Opaque) and "isinstance" in v.attrs:
        return v.attrs["isinstance"](classes)
    if isinstance(v, (Opaque, Bag, Seq)):
        raise Unsupported("isinstance(%r)" % (v,))
    return z3.BoolVal(isinstance(v, classes))


def symbolic(v):
    if isinstance(v, (z3.ExprRef, Phi, Bag, Cont, Seq, GraphRef, Obj, Opaque, Init, AccDelta, DictSlot, LenOf, Closure, BoundFn, Method)):
        return True
    if isinstance(v, (tuple, list, set, frozenset)):
        return any(symbolic(x) for x in v)
    if isinstance(v, dict):
        return any(symbolic(x) for x in v.values())
    return False


MUT = (list, set, dict)


def call_builtin(ex, st, f, args, kwargs):
    args = [ex.seq_of(st, a) for a in args]
    if f is isinstance:
        return isinstance_(ex, st, args[0], args[1])
    if f is print:
        return None
    if f is len:
        return length(ex, st, args[0])
    if f in (str, repr) and args and symbolic(args[0]):
        v = args[0]
        if isinstance(v, z3.ExprRef) and v.sort() == V:
            return f_str(v)
        if isinstance(v, z3.ExprRef) and v.sort() == I:
            from .interp import formatted
            return formatted("%d", v)
        return fresh("str")
    if f in (list, tuple, set, frozenset, sorted):
        if not args:
            return ex.new_cont(st, "set" if f in (set, frozenset) else "list")
        v = args[0]
        if isinstance(v, Phi):
            return ex.mkphi([(c, call_builtin(ex, st, f, [x], kwargs)) for c, x in v.alts])
        if f in (list, tuple) and isinstance(v, Seq):
            return v
        if isinstance(v, MUT) and not symbolic(v):
            v = ex.lifted(st, v)
        if not symbolic(v):
            return f(v, **kwargs) if f is not sorted else v
        if isinstance(v, (tuple, list)):
            return tuple(v) if f is tuple else v
        if isinstance(v, InitV): carried(v)
        lazy = ()
        c = ex.new_cont(st, "set" if f in (set, frozenset) else "list")
        for p in ex.as_pieces(st, v):
            ex.emit_piece(st, c.loc, p)
        return c
    if f is dict:
        if not args and not kwargs:
            return ex.new_cont(st, "dict")
        if args and symbolic(args[0]):
            c = ex.new_cont(st, "dict")
            v = args[0]
            ps = ex.pairs(st, v) if isinstance(v, (Cont, dict)) else ex.as_pieces(st, v)
            for p in ps:
                ex.emit_piece(st, c.loc, p)
            return c
    if f is collections.defaultdict:
        if args and args[0] in (set, list):
            return ex.new_cont(st, "ddset")
        raise Unsupported("defaultdict(%s)" % (args,))
    if f is range:
        zs = [ex.to_z3(a) if not isinstance(a, LenOf) else None for a in args]
        if any(z is None or z.sort() != I for z in zs):
            raise Unsupported("range")
        if all(z3.is_int_value(z) for z in zs):
            return range(*[z.as_long() for z in zs])
        if len(zs) == 3:
            raise Unsupported("range step")
        lo, hi = (z3.IntVal(0), zs[0]) if len(zs) == 1 else zs
        n = z3.simplify(z3.If(hi - lo < 0, z3.IntVal(0), hi - lo))
        return Seq(n, lambda i: z3.simplify(lo + i), off=lo, hi=hi, raw=lambda i: i)
    if f is enumerate:
        v = args[0]
        start = args[1] if len(args) > 1 else kwargs.get("start", 0)
        if isinstance(v, Seq):
            return Seq(v.length, lambda i: (z3.simplify(i + ex.to_z3(start)), v.item(i)))
        if not symbolic(v):
            return list(enumerate(v, start))
        raise Unsupported("enumerate")
    if f is zip:
        args = [Seq(q_len(a), lambda i, a=a: q_at(a, i)) if isinstance(a, z3.ExprRef) and a.sort() == Q else a for a in args]
        if all(isinstance(a, Seq) for a in args):
            n = args[0].length
            for a in args[1:]:
                n = z3.simplify(z3.If(a.length < n, a.length, n))
            return Seq(n, lambda i: tuple(a.item(i) for a in args))
        if not symbolic(args):
            return list(zip(*args))
        raise Unsupported("zip of %s" % (args,))
    if f is reversed and isinstance(args[0], Seq):
        v = args[0]
        return Seq(v.length, lambda i: v.item(z3.simplify(v.length - 1 - i)))
    if f is itertools.product and len(args) == 1 and kwargs.get("repeat") == 2:
        args, kwargs = [args[0], args[0]], {}
    if f is itertools.product and len(args) == 2:
        out = []
        for p in ex.as_pieces(st, args[0]):
            for q in ex.as_pieces(st, args[1]):
                ren = [(b, fresh("x", b.sort())) for b in q.binders]
                out.append(Piece(tuple(p.binders) + tuple(r for _, r in ren), tuple(p.conds) + tuple(subst(c, ren) for c in q.conds),
                                 (p.value, ex.map_value(q.value, lambda e: subst(e, ren)))))
        return Bag(out)
    if f is itertools.combinations and len(args) == 2 and args[1] == 2 and isinstance(args[0], Seq):
        v = args[0]
        i, j = fresh("i", I), fresh("j", I)
        return Bag([Piece([i, j], [i >= 0, i < j, j < v.length], (v.item(i), v.item(j)))])
    if f is itertools.chain:
        return Bag(sum([ex.as_pieces(st, a) for a in args], []), lazy=sum([tuple(a.lazy) for a in args if isinstance(a, Bag)], ()))
    if f in (any, all):
        out = []
        for p in ex.as_pieces(st, args[0]):
            t = ex.truth(st, p.value)
            out.append(Exists(p.binders, And(*(list(p.conds) + [t if f is any else Not(t)]))))
        return Or(*out) if f is any else Not(Or(*out))
    if f is bool:
        return ex.truth(st, args[0]) if args else False
    if f in (min, max) and len(args) == 1 and symbolic(args[0]):
        return extremum(ex, st, f, args[0], kwargs)
    if f in (min, max) and len(args) == 2 and symbolic(args):
        a, b = ex.to_z3(args[0]), ex.to_z3(args[1])
        if a.sort() == I and b.sort() == I:
            c = a < b if f is min else a > b
            return z3.If(c, a, b)
    if f is iter:
        return args[0]
    if f is next:
        v = args[0]
        ne = ex.truth(st, v)
        if len(args) > 1:
            s2 = st.clone(); s2.assume(ne)
            n0 = len(s2.ctx)
            x = ex.some_element(s2, v)
            st.assume(Implies(ne, And(*[c for k, c in s2.ctx[n0:] if k == "c"])))
            return ex.ite(ne, x, args[1])
        ex.raise_if(st, StopIteration, Not(ne))
        return ex.some_element(st, v)
    if f is hasattr:
        if isinstance(args[0], Obj):
            return args[1] in st.heap[args[0].loc] or hasattr(args[0].cls, args[1])
    if f is getattr:
        return ex.getattr(st, args[0], args[1])
    if f is type and len(args) == 1:
        if isinstance(args[0], Obj): return args[0].cls
    if f is URIRef and len(args) == 1 and not kwargs:
        from .interp import is_formatted, uri_formatted
        if is_formatted(args[0]):
            return uri_formatted(ex, st, args[0])
    if f is Literal:
        x = args[0]
        if not symbolic(x) and not kwargs and len(args) == 1:
            return Literal(x)
        if len(args) == 1 and not kwargs:
            g = z3.Function("literal", V, V)
            t = g(ex.to_V(x))
            st.assume(isLit(t))
            return t
    if f is BNode and not args:
        inner = [x for k, x in st.ctx if k == "b"]
        fn = z3.Function("newnode%d" % next(sym._counter), *([x.sort() for x in inner] + [V]))
        t = fn(*inner)
        st.assume(isBN(t))
        return t
    if isinstance(f, type) and issubclass(f, BaseException):
        return Opaque("exception", cls=f)
    if f is super:
        raise Unsupported("super()")
    h = getattr(ex, "call_hook", None)
    if h is not None:
        r = h(ex, st, f, args, kwargs)
        if r is not NotImplemented:
            return r
    if symbolic(list(args)) or symbolic(list(kwargs.values())):
        # a method of a concrete object with symbolic arguments
        recv = getattr(f, "__self__", None)
        if isinstance(recv, MUT):
            return call_method(ex, st, recv, f.__name__, args, kwargs)
        if isinstance(recv, str) and f.__name__ in ("format", "join"):
            bad = fmt.braces(recv, args, kwargs) if f.__name__ == "format" else None
            if bad is not None: ex.raise_if(st, bad, TRUE)
            return fresh("msg")
        raise Unsupported("call of %s with symbolic arguments" % (getattr(f, "__qualname__", f),))
    recv = getattr(f, "__self__", None)
    if isinstance(recv, MUT) and f.__name__ in ("append", "add", "extend", "update", "clear", "pop", "remove", "insert", "setdefault", "discard"):
        return mutate_concrete(ex, st, recv, f.__name__, args, kwargs)
    if not callable(f):
        raise Unsupported("call of %r" % (f,))
    try:
        return f(*args, **kwargs)
    except Exception as e:
        ex.raise_if(st, type(e), TRUE)


def extremum(ex, st, f, v, kwargs):
    """max/min of integers: a bound that is attained"""
    ps = ex.as_pieces(st, v)
    inner = [x for k, x in st.ctx if k == "b"]
    m = fresh("extremum", I)
    if inner:
        raise Unsupported("max in a loop")
    facts = []
    attained = []
    for p in ps:
        x = ex.to_z3(p.value)
        if x.sort() != I:
            raise Unsupported("max of non-integers")
        bound = m >= x if f is max else m <= x
        body = Implies(And(*p.conds), bound)
        facts.append(ForAll(p.binders, body) if p.binders else body)
        attained.append(Exists(p.binders, And(*(list(p.conds) + [Eq(m, x)]))))
    ne = ex.truth(st, Bag(ps))
    if "default" in kwargs:
        d = ex.to_z3(kwargs["default"])
        st.assume(Or(Or(*attained), And(Not(ne), Eq(m, d))))
    else:
        ex.raise_if(st, ValueError, Not(ne))
        st.assume(Or(*attained))
    for c in facts:
        st.assume(c)
    return m


def length(ex, st, v):
    if isinstance(v, Phi):
        outs = [(c, length(ex, st, x)) for c, x in v.alts]
        return ex.mkphi(outs)
    if isinstance(v, InitV): carried(v)
    if isinstance(v, Seq): return v.length
    if isinstance(v, z3.ExprRef) and v.sort() == Q: return q_len(v)
    if isinstance(v, MUT):
        v = ex.lifted(st, v)
    if isinstance(v, Cont) and getattr(v, "literal", None) is not None:
        return len(v.literal)
    if isinstance(v, (Bag, Cont, DictSlot)): return LenOf(v)
    if isinstance(v, z3.ExprRef) and v.sort() == V: return f_len(v)
    if isinstance(v, AccDelta): raise CarriedRead(v.name)
    return len(v)
