"""Symbolic execution of the real functions (their current source in /repo) into guarded emissions.

Names that are not local are resolved in the really imported module, so tables, classes and constants are the ones the
program uses; method calls are dispatched through the real class of the object; calls to functions of the package are
executed from their source unless a contract is registered for the function.  Loops are summarised without a bound: a
loop over a collection is executed once for an arbitrary element, what it adds to a set, list or graph becomes a
comprehension over the elements, break/return become a `not stopped before` predicate, flags become existentials.
Anything outside the supported subset raises Unsupported, which is reported as a failed obligation of the function."""
import ast
import builtins
import inspect
import itertools
import textwrap
import types
from collections import defaultdict
import z3
from .sym import *  # noqa: F401,F403
from . import sym, load
import rdflib
from rdflib import URIRef, Literal, BNode, Graph, Dataset


class Unsupported(Exception):
    pass


class CarriedRead(Exception):
    """the value a variable has from an earlier iteration is read"""
    def __init__(self, name):
        self.name = name


# ----- values -------------------------------------------------------------------------------------------------
class Piece:
    """one group of elements: {value | binders, conds}"""
    __slots__ = ("binders", "conds", "value", "origin")

    def __init__(self, binders, conds, value, origin=None):
        self.binders, self.conds, self.value, self.origin = tuple(binders), tuple(conds), value, origin

    def __repr__(self):
        return "{%s | %s. %s}" % (self.value, list(self.binders), list(self.conds))


class Bag:
    """finite collection of unknown order"""
    def __init__(self, pieces, lazy=()):
        self.pieces, self.lazy = tuple(pieces), tuple(lazy)

    def __repr__(self):
        return "Bag%s" % (list(self.pieces),)


class Seq:
    """indexed sequence of symbolic length"""
    def __init__(self, length, item, key=None, off=None, hi=None, raw=None):
        self.length, self.item, self.key = length, item, key
        # absolute numbering of the elements: off <= i < hi, element raw(i)
        self.off = z3.IntVal(0) if off is None else off
        self.hi = length if hi is None else hi
        self.raw = item if raw is None else raw

    def domain(self, i):
        return [z3.simplify(i >= self.off), z3.simplify(i < self.hi)]

    def __repr__(self):
        return "Seq(%s)" % (self.length,)


class Cont:
    """reference to a mutable list/set/dict on the symbolic heap"""
    def __init__(self, loc, kind):
        self.loc, self.kind = loc, kind

    def __repr__(self):
        return "Cont(%s,%s)" % (self.loc, self.kind)


class Content:
    """contents of a container; depth: length of the context when it was created"""
    def __init__(self, pieces, depth):
        self.pieces, self.depth = tuple(pieces), depth


class GraphRef:
    """part: 'D' the destination, 'G' the expanded graph (destination and others)"""
    def __init__(self, part):
        self.part = part

    def __repr__(self):
        return "GraphRef(%s)" % self.part


class GLog:
    def __init__(self, ops):
        self.ops = tuple(ops)          # (what, part, Piece)


class Obj:
    def __init__(self, loc, cls):
        self.loc, self.cls = loc, cls

    def __repr__(self):
        return "Obj(%s)" % self.cls.__name__


class Super:
    def __init__(self, obj, after):
        self.obj, self.after = obj, after


class Closure:
    def __init__(self, node, env, fr):
        self.node, self.env, self.fr = node, env, fr


class Method:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return "Method(%r.%s)" % (self.recv, self.name)


class Builtin:
    def __init__(self, name):
        self.name = name


class Phi:
    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Phi(%s)" % (self.alts,)


class Init:
    """value of a variable at the start of the loop body (from the previous iteration)"""
    def __init__(self, name):
        self.name = name


class AccDelta:
    """carried variable plus elements added in this iteration"""
    def __init__(self, name, kind, pieces):
        self.name, self.kind, self.pieces = name, kind, tuple(pieces)


class Opaque:
    """a value nothing is known about, identified by name"""
    def __init__(self, name, **attrs):
        self.name, self.attrs = name, attrs

    def __repr__(self):
        return "Opaque(%s)" % self.name


UNSET = Opaque("unset")


class State:
    def __init__(self):
        self.env, self.heap, self.ctx = {}, {}, []

    def clone(self):
        s = State()
        s.env, s.heap, s.ctx = dict(self.env), dict(self.heap), list(self.ctx)
        return s

    def binders_since(self, depth):
        return [x for k, x in self.ctx[depth:] if k == "b"]

    def conds_since(self, depth):
        return [x for k, x in self.ctx[depth:] if k == "c"]

    def assume(self, c):
        if not z3.is_true(c):
            self.ctx.append(("c", c))

    def known(self):
        d = {}
        for k, x in self.ctx:
            if k == "c":
                for y in (x.children() if z3.is_and(x) else [x]):
                    if z3.is_eq(y) and y.arg(0).sort() == V and is_const(y.arg(1)):
                        d[y.arg(0).get_id()] = y.arg(1)
        return d


class Exit:
    def __init__(self, kind, st, value=None):
        self.kind, self.st, self.value = kind, st, value


class Frame:
    def __init__(self, fn, glob, cells, cls, name):
        self.fn, self.glob, self.cells, self.cls, self.name = fn, glob, cells, cls, name


# uninterpreted operations on opaque values
f_truth = z3.Function("truth", V, B)
f_lt = z3.Function("lt", V, V, B)
f_le = z3.Function("le", V, V, B)
f_len = z3.Function("len", V, I)
f_call = z3.Function("call", V, V, V)
f_raises = z3.Function("raises", V, V, B)      # calling the converter on the string raises ValueError
intval = z3.Function("intval", V, I)

_src_cache = {}


def func_ast(fn):
    code = fn.__code__
    if code not in _src_cache:
        try:
            lines, start = inspect.getsourcelines(code)
        except OSError as e:
            raise Unsupported("no source for %s: %s" % (fn, e))
        src = textwrap.dedent("".join(lines))
        node = None
        try:
            tree = ast.parse(src)
        except SyntaxError:
            # a lambda inside a larger expression: parse the whole file and find it
            tree = None
        if tree is not None:
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)) and \
                        (n.name if isinstance(n, ast.FunctionDef) else "<lambda>") == code.co_name:
                    node = n
                    break
        if node is None:
            full = ast.parse(open(code.co_filename, encoding="utf8").read())
            cands = [n for n in ast.walk(full) if isinstance(n, (ast.FunctionDef, ast.Lambda))
                     and (n.name if isinstance(n, ast.FunctionDef) else "<lambda>") == code.co_name
                     and n.lineno <= code.co_firstlineno <= getattr(n, "end_lineno", n.lineno)]
            if isinstance(cands, list) and cands:
                # several lambdas on one line: match by column of the code object
                cols = [p for p in code.co_positions() if p[2] is not None]
                best = [n for n in cands if any(p[0] == n.body.lineno and p[2] == n.body.col_offset for p in cols)] \
                    if code.co_name == "<lambda>" else cands
                node = (best or cands)[0]
        if node is None:
            raise Unsupported("source of %s not found" % fn)
        _src_cache[code] = node
    return _src_cache[code]


def qual(fn):
    return fn.__module__.split(".")[-1] + "." + fn.__qualname__


def in_package(fn):
    m = getattr(fn, "__module__", "") or ""
    return m == "owlrl" or m.startswith("owlrl.")


def assigned_names(stmts):
    out = set()

    class Vis(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            self.visit(n.generators[0].iter)
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
    for s in stmts:
        Vis().visit(s)
    return out


class Executor:
    UNROLL = 12

    def __init__(self, contracts=None):
        self.contracts = contracts or {}
        self.facts = []                # definitional facts (closed formulas)
        self.raises = []               # (exception name, binders, conds, note)
        self.reads = []                # heap locations read
        self.havocs = {}               # K name -> info
        self.seqs = {}                 # list location -> (content, the sequence it is)
        self.locs = itertools.count()
        self.used = {}                 # functions executed from source: qualified name -> source lines
        self.stability = []
        self.depth = 0
        self.graph_sorts = {}
        self.base = {"D": z3.Function("D", V, V, V, B), "O": z3.Function("O", V, V, V, B),
                     "U": z3.Function("U", V, V, V, B)}
        self.while_hook = None
        self.firsts = {}
        self.fold_hook = None
        self.events = None
        self.nlines = 0

    # ----- helpers ------------------------------------------------------------------------------------------
    def newloc(self):
        return next(self.locs)

    def new_cont(self, st, kind, pieces=()):
        loc = self.newloc()
        st.heap[loc] = Content(pieces, len(st.ctx))
        return Cont(loc, kind)

    def new_obj(self, st, cls, attrs):
        loc = self.newloc()
        st.heap[loc] = dict(attrs)
        return Obj(loc, cls)

    def emit(self, st, loc, value, origin=None):
        c = st.heap[loc]
        p = Piece(st.binders_since(c.depth), st.conds_since(c.depth), value, origin or self.where())
        st.heap[loc] = Content(c.pieces + (p,), c.depth)

    def gop(self, st, what, part, triple):
        log = st.heap["graph"]
        st.heap["graph"] = GLog(log.ops + ((what, part, Piece(st.binders_since(0), st.conds_since(0), triple, self.where())),))

    def where(self):
        return getattr(self, "cur", None)

    def may_raise(self, st, exc, cond, note=""):
        if z3.is_false(cond):
            return
        self.raises.append((exc, tuple(st.binders_since(0)), tuple(st.conds_since(0)) + (cond,), note or self.where(), len(st.ctx)))
        st.assume(Not(cond))

    # ----- merging ------------------------------------------------------------------------------------------
    def to_z3(self, v):
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if v is None or isinstance(v, (str, Literal)):
            return const(v)
        return None

    def to_V(self, v):
        """as a term of sort V"""
        if isinstance(v, z3.ExprRef):
            if v.sort() == V:
                return v
            if v.sort() == I:
                return vint(v)
            if v.sort() == B:
                return z3.If(v, const(True), const(False))
            raise Unsupported("sort %s as value" % v.sort())
        if isinstance(v, (Phi,)):
            r = None
            for c, a in reversed(v.alts):
                a = self.to_V(a)
                r = a if r is None else If(c, a, r)
            return r
        if isinstance(v, (bool, int, str, Literal)) or v is None or callable(v):
            return const(v)
        if isinstance(v, Opaque):
            return const(v)
        raise Unsupported("%r as a term" % (v,))

    def ite(self, c, a, b):
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if a is b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Cont) and isinstance(b, Cont) and a.loc == b.loc:
            return a
        if isinstance(a, GraphRef) and isinstance(b, GraphRef) and a.part == b.part:
            return a
        if isinstance(a, Obj) and isinstance(b, Obj) and a.loc == b.loc:
            return a
        if isinstance(a, (Init,)) and isinstance(b, Init) and a.name == b.name:
            return a
        if isinstance(a, AccDelta) and isinstance(b, AccDelta) and a.name == b.name:
            ps = list(a.pieces) + [p for p in b.pieces if all(p is not q for q in a.pieces)]
            return AccDelta(a.name, a.kind, ps)
        if isinstance(a, AccDelta) and isinstance(b, Init) and a.name == b.name:
            return a
        if isinstance(b, AccDelta) and isinstance(a, Init) and a.name == b.name:
            return b
        za, zb = self.to_z3(a), self.to_z3(b)
        if za is not None and zb is not None:
            if za.sort() == zb.sort():
                return If(c, za, zb)
        if not isinstance(a, (Phi, z3.ExprRef)) and type(a) is type(b):
            try:
                if a == b and not isinstance(a, (Init, AccDelta, Cont, Bag, Seq)):
                    return a
            except Exception:
                pass
        alts = []
        for d, v in ((c, a), (Not(c), b)):
            if isinstance(v, Phi):
                alts += [(And(d, e), w) for e, w in v.alts]
            else:
                alts.append((d, v))
        alts = [(d, v) for d, v in alts if not z3.is_false(d)]
        return Phi(alts)

    def merge(self, base_depth, states):
        """join states that share the context prefix; states: list of (extra cond already in ctx)"""
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        out = states[-1].clone()
        conds = [And(*s.conds_since(base_depth)) for s in states]
        binders = [s.binders_since(base_depth) for s in states]
        out.ctx = list(states[0].ctx[:base_depth])
        if any(binders):
            conds = [Exists(b, c) for b, c in zip(binders, conds)]
        for k in range(len(states) - 2, -1, -1):
            c, s = conds[k], states[k]
            for name in set(out.env) | set(s.env):
                a, b = s.env.get(name, UNSET), out.env.get(name, UNSET)
                if a is not b:
                    out.env[name] = self.ite(c, a, b)
            out.heap = self.merge_heap(c, s.heap, out.heap)
        live = Or(*conds)
        # c or not c is all of it
        out.assume(self.simplify_cover(live))
        return out

    def simplify_cover(self, c):
        if z3.is_true(c):
            return c
        s = z3.Solver()
        limit(s, 300)
        s.add(z3.Not(c))
        if not _has_quant(c) and s.check() == z3.unsat:
            return TRUE
        return c

    def merge_heap(self, c, h1, h2):
        out = dict(h2)
        for loc, a in h1.items():
            b = h2.get(loc)
            if b is None:
                out[loc] = a
            elif a is b:
                continue
            elif isinstance(a, Content):
                ids = set(id(p) for p in b.pieces)
                if a.depth != b.depth:
                    raise Unsupported("container re-created in a branch")
                out[loc] = Content(b.pieces + tuple(p for p in a.pieces if id(p) not in ids), a.depth)
            elif isinstance(a, GLog):
                n = 0
                while n < min(len(a.ops), len(b.ops)) and a.ops[n] is b.ops[n]:
                    n += 1
                ids = set(id(p) for p in a.ops)
                out[loc] = GLog(a.ops + tuple(p for p in b.ops[n:] if id(p) not in ids))
            elif isinstance(a, dict):
                d = dict(b)
                for k in set(a) | set(b):
                    x, y = a.get(k, UNSET), b.get(k, UNSET)
                    if x is not y:
                        d[k] = self.ite(c, x, y)
                out[loc] = d
            else:
                raise Unsupported("heap merge %r" % (a,))
        return out

    # ----- reading graphs and containers ---------------------------------------------------------------------
    def gbase(self, part, t):
        if part == "G":
            return self.base["U"](*t)
        return self.base[part](*t)

    def match(self, st, piece, t):
        """t is one of the piece's elements"""
        return Exists(piece.binders, And(*(list(piece.conds) + [self.eq(st, a, b) for a, b in zip(piece.value, t)])))

    def g_contains(self, st, part, t):
        self.reads.append("graph")
        t = tuple(self.to_V(x) for x in t)
        log = st.heap["graph"]
        if part == "G" and all(op[1] in ("D", "G", "K") for op in log.ops):
            if any(op[0] == "remove" and op[1] == "D" for op in log.ops):
                return Or(self._part(st, "D", t), self._part(st, "O", t))
            r = self.base["U"](*t)
            for what, p, piece in log.ops:
                m = self.match(st, piece, t)
                r = Or(r, m) if what == "add" else And(r, Not(m))
            return r
        if part == "G":
            return Or(self._part(st, "D", t), self._part(st, "O", t))
        return self._part(st, part, t)

    def _part(self, st, part, t):
        r = self.base[part](*t)
        for what, p, piece in st.heap["graph"].ops:
            hit = p == part or (what == "remove" and p == "G") or (p in ("G", "K") and what == "add" and part == "D")
            if hit:
                m = self.match(st, piece, t)
                r = Or(r, m) if what == "add" else And(r, Not(m))
        return r

    def g_triples(self, st, part, pat):
        """Bag of the triples of the graph matching the pattern (None = any)"""
        self.reads.append("graph")
        log = st.heap["graph"]
        removed = any(op[0] == "remove" for op in log.ops)
        pat = [None if x is None else self.to_V(x) for x in pat]

        def fresh_t(stem="t"):
            bs, t = [], []
            for x, n in zip(pat, "spo"):
                if x is None:
                    b = fresh(n)
                    bs.append(b)
                    t.append(b)
                else:
                    t.append(x)
            return bs, tuple(t)
        if removed:
            bs, t = fresh_t()
            return Bag([Piece(bs, [self.g_contains(st, part, t)], t)], lazy=[("graph", part, tuple(pat))])
        pieces = []
        bs, t = fresh_t()
        pieces.append(Piece(bs, [self.gbase(part, t)], t))
        for what, p, piece in log.ops:
            if part == "D" and p == "O":
                continue
            # rename the binders of the piece
            ren = [(b, fresh("r", b.sort())) for b in piece.binders]
            val = tuple(subst(self.to_V(x), ren) for x in piece.value)
            conds = [subst(c, ren) for c in piece.conds]
            for x, y in zip(pat, val):
                if x is not None:
                    conds.append(Eq(y, x))
            pieces.append(Piece([r for _, r in ren], conds, val))
        return Bag(pieces, lazy=[("graph", part, tuple(pat))])

    def cont_pieces(self, st, c):
        self.reads.append(c.loc)
        return st.heap[c.loc].pieces

    def as_pieces(self, st, v):
        """elements of an iterable value as pieces (loses order)"""
        if isinstance(v, Bag):
            return list(v.pieces)
        if isinstance(v, Cont):
            ps = list(self.cont_pieces(st, v))
            if v.kind in ("dict", "ddset"):
                return [Piece(p.binders, p.conds, p.value[0], p.origin) for p in ps]
            return ps
        if isinstance(v, Seq):
            i = fresh("i", I)
            return [Piece([i], v.domain(i), v.raw(i))]
        if isinstance(v, (tuple, list, set, frozenset)):
            v2 = self.lifted(st, v)
            if v2 is not v:
                return self.as_pieces(st, v2)
            return [Piece([], [], x) for x in v]
        if isinstance(v, dict):
            v2 = self.lifted(st, v)
            if v2 is not v:
                return self.as_pieces(st, v2)
            return [Piece([], [], x) for x in v]
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return [Piece([], [], x) for x in v]
        if isinstance(v, Phi):
            out = []
            for c, a in self.live_alts(st, v):
                for p in self.as_pieces(st, a):
                    out.append(Piece(p.binders, (c,) + tuple(p.conds), p.value, p.origin))
            return out
        if isinstance(v, Init):
            raise CarriedRead(v.name)
        if isinstance(v, AccDelta):
            raise CarriedRead(v.name)
        raise Unsupported("iteration over %r" % (v,))

    def lifted(self, st, obj):
        """a concrete mutable object that was mutated symbolically lives on the heap"""
        key = ("glob", id(obj))
        if key in st.heap:
            kind = "dict" if isinstance(obj, dict) else "set" if isinstance(obj, set) else "list"
            return Cont(key, kind)
        return obj

    def lift(self, st, obj):
        key = ("glob", id(obj))
        if key not in st.heap:
            if isinstance(obj, dict):
                ps = [Piece([], [], (k, v)) for k, v in obj.items()]
            elif len(obj) > self.UNROLL and all(isinstance(x, (URIRef, Literal)) for x in obj):
                t = sym.table(list(obj))
                b = fresh("e")
                ps = [Piece([b], [t.has(b)], b)]
            else:
                ps = [Piece([], [], x) for x in obj]
            st.heap[key] = Content(ps, 0)
            self.keep = getattr(self, "keep", []) + [obj]
        kind = "dict" if isinstance(obj, dict) else "set" if isinstance(obj, set) else "list"
        return Cont(key, kind)

    def live_alts(self, st, phi):
        """alternatives of a joined value, without those a solver shows impossible here (values left behind by break)"""
        out = []
        for c, v in phi.alts:
            if (isinstance(v, Init) or v is UNSET) and st is not None and self.impossible(st, c):
                continue
            out.append((c, v))
        return out

    def impossible(self, st, c):
        conds = [x for k, x in st.ctx if k == "c"] + [c]
        if z3.is_false(And(*conds)):
            return True
        s = z3.Solver()
        limit(s, 3000)
        s.add(*self.facts)
        s.add(*conds)
        return s.check() == z3.unsat

    # ----- equality and truth ---------------------------------------------------------------------------------
    def eq(self, st, a, b):
        if isinstance(a, Phi):
            return Or(*[And(c, self.eq(st, x, b)) for c, x in self.live_alts(st, a)])
        if isinstance(b, Phi):
            return Or(*[And(c, self.eq(st, a, x)) for c, x in self.live_alts(st, b)])
        for v in (a, b):
            if isinstance(v, (Init, AccDelta)):
                raise CarriedRead(v.name)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return And(*[self.eq(st, x, y) for x, y in zip(a, b)])
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (tuple, Cont, Obj, Seq, Bag)):
                    return FALSE
            za = a if isinstance(a, z3.ExprRef) else None
            zb = b if isinstance(b, z3.ExprRef) else None
            if za is None:
                za = self.const_like(a, zb.sort())
            if zb is None:
                zb = self.const_like(b, za.sort())
            if za.sort() != zb.sort():
                za, zb = self.to_V(za), self.to_V(zb)
            if st is not None and za.sort() == V:
                kn = st.known()
                ka, kb = kn.get(za.get_id(), za), kn.get(zb.get_id(), zb)
                if is_const(ka) and is_const(kb):
                    return Eq(ka, kb)
            return Eq(za, zb)
        if isinstance(a, (Cont, Seq, Bag)) or isinstance(b, (Cont, Seq, Bag)):
            if isinstance(a, (list,)) and not a:
                a, b = b, a
            if isinstance(b, (list, tuple)) and not b:
                return Not(self.truth(st, a))
            raise Unsupported("comparison of collections")
        if isinstance(a, (Obj, GraphRef, Opaque)) or isinstance(b, (Obj, GraphRef, Opaque)):
            if isinstance(a, Obj) and isinstance(b, Obj):
                return z3.BoolVal(a.loc == b.loc)
            return z3.BoolVal(a is b)
        return z3.BoolVal(bool(a == b))

    def const_like(self, x, sort):
        if sort == I and isinstance(x, int) and not isinstance(x, bool):
            return z3.IntVal(x)
        if sort == B and isinstance(x, bool):
            return z3.BoolVal(x)
        if sort == V:
            return self.to_V(x)
        if sort == z3.StringSort() and isinstance(x, str):
            return z3.StringVal(x)
        return self.to_V(x)

    def truth(self, st, v):
        if isinstance(v, Phi):
            return Or(*[And(c, self.truth(st, x)) for c, x in self.live_alts(st, v)])
        if isinstance(v, (Init, AccDelta)):
            raise CarriedRead(v.name)
        if isinstance(v, z3.ExprRef):
            if v.sort() == B: return v
            if v.sort() == I: return Not(Eq(v, z3.IntVal(0)))
            if v.sort() == V:
                if is_const(v):
                    return z3.BoolVal(bool(concrete_of(v)))
                return f_truth(v)
            raise Unsupported("truth of %s" % v.sort())
        if isinstance(v, (Bag, Cont)):
            return Or(*[Exists(p.binders, And(*p.conds)) for p in
                        (v.pieces if isinstance(v, Bag) else self.cont_pieces(st, v))])
        if isinstance(v, Seq):
            return z3.simplify(v.length > 0)
        if isinstance(v, (Obj, GraphRef, Closure, Method)):
            return TRUE
        if isinstance(v, (list, dict, set)):
            l = self.lifted(st, v)
            if l is not v:
                return self.truth(st, l)
        if isinstance(v, Opaque):
            return z3.Const("truth_%s" % v.name, B)
        return z3.BoolVal(bool(v))

    def contains(self, st, coll, x):
        if isinstance(coll, Phi):
            return Or(*[And(c, self.contains(st, a, x)) for c, a in self.live_alts(st, coll)])
        if isinstance(coll, (Init, AccDelta)):
            raise CarriedRead(coll.name)
        if isinstance(coll, GraphRef):
            if not isinstance(x, tuple):
                raise Unsupported("membership of %r in a graph" % (x,))
            x = self.unpack(st, x, 3)
            for i, y in enumerate(x):
                # None stands for any term
                if isinstance(y, Phi) and any(a is None for _, a in self.live_alts(st, y)):
                    return Or(*[And(c, self.contains(st, coll, tuple(x[:i]) + (a,) + tuple(x[i + 1:]))) for c, a in self.live_alts(st, y)])
                if isinstance(y, z3.ExprRef) and z3.is_app(y) and y.decl().name() in ("datatype", "language", "value"):
                    raise Unsupported("a term that may be None in a graph query")
            if any(y is None for y in x):
                return self.truth(st, self.g_triples(st, coll.part, x))
            return self.g_contains(st, coll.part, x)
        if isinstance(coll, (list, tuple, set, frozenset, dict)):
            l = self.lifted(st, coll)
            if l is not coll:
                return self.contains(st, l, x)
            items = list(coll)
            if not isinstance(x, (z3.ExprRef, Phi, tuple, Init, AccDelta)):
                if any(isinstance(i, (z3.ExprRef, Phi)) for i in items):
                    return Or(*[self.eq(st, x, i) for i in items])
                return z3.BoolVal(x in coll)
            if len(items) > self.UNROLL and isinstance(x, z3.ExprRef) and x.sort() == V and \
                    not any(isinstance(i, (z3.ExprRef, tuple)) for i in items):
                x2 = st.known().get(x.get_id(), x)
                return table(items).has(x2)
            return Or(*[self.eq(st, x, i) for i in items])
        if isinstance(coll, str) and isinstance(x, str):
            return z3.BoolVal(x in coll)
        return Or(*[Exists(p.binders, And(*(list(p.conds) + [self.eq(st, p.value, x)])))
                    for p in self.as_pieces(st, coll)])

    def length_cmp(self, st, op, bag, n):
        """comparison of the length of an unordered collection with a number: only emptiness"""
        ne = self.truth(st, bag)
        key = (op, n)
        pos = {(">", 0), (">=", 1), ("!=", 0)}
        neg = {("==", 0), ("<", 1), ("<=", 0)}
        if key in pos: return ne
        if key in neg: return Not(ne)
        if key in {("<", 0)}: return FALSE
        if key in {(">=", 0)}: return TRUE
        if key in {(">", 1), (">=", 2), ("!=", 1), ("==", 1), ("<=", 1), ("<", 2)}:
            ps = self.as_pieces(st, bag)
            # more than one element: two different ones (elements are distinct for graph reads)
            two = []
            for p, q in itertools.product(ps, ps):
                ren = [(b, fresh("q", b.sort())) for b in q.binders]
                qv = self.map_value(q.value, lambda e: subst(e, ren))
                two.append(Exists(list(p.binders) + [r for _, r in ren],
                                  And(*(list(p.conds) + [subst(c, ren) for c in q.conds] + [Not(self.eq(st, p.value, qv))]))))
            more = Or(*two)
            if key in {(">", 1), (">=", 2)}: return more
            if key in {("<=", 1), ("<", 2)}: return Not(more)
            one = And(ne, Not(more))
            return one if key == ("==", 1) else Not(one)
        raise Unsupported("length of an unordered collection %s %s" % key)

    def map_value(self, v, f):
        if isinstance(v, z3.ExprRef): return f(v)
        if isinstance(v, tuple): return tuple(self.map_value(x, f) for x in v)
        if isinstance(v, Phi): return Phi([(f(c), self.map_value(x, f)) for c, x in v.alts])
        return v


def canon(e):
    """text of a formula with the bound names numbered in order of appearance"""
    import re
    free, stack, seen = set(), [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body())
        elif z3.is_app(x):
            free.add(x.decl().name())
            stack.extend(x.children())
    names = {}
    return re.sub(r"[\w]+@\d+", lambda m: m.group(0) if m.group(0) in free else names.setdefault(m.group(0), "bound%d" % len(names)), e.sexpr())


def _has_quant(e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        stack.extend(x.children())
    return False


def value_exprs(v):
    if isinstance(v, z3.ExprRef): return [v]
    if isinstance(v, tuple): return [e for x in v for e in value_exprs(x)]
    if isinstance(v, Phi): return [e for c, x in v.alts for e in [c] + value_exprs(x)]
    return []
