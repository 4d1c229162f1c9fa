"""Statements and expressions of the real functions."""
from .exec import *  # noqa: F401,F403
from .exec import _has_quant
from . import fmt
import operator
import re
import rdflib
import collections as _collections
import functools as _functools
import itertools as _itertools


class Dead(Exception):
    """no normal continuation"""


f_comparable = z3.Function("comparable", V, V, B)
VALUES = {"value", "call", "toPython"}          # functions whose result is a Python value, of any type


def maybe_value(x):
    return isinstance(x, z3.ExprRef) and z3.is_app(x) and x.sort() == V and x.decl().name() in VALUES


Q = z3.DeclareSort("Q")                       # finite sequences of terms (key value tuples)
q_len = z3.Function("qlen", Q, I)
q_at = z3.Function("qat", Q, I, V)
q_snoc = z3.Function("qsnoc", Q, V, Q)
q_init = z3.Function("qinit", Q, Q)
q_one = z3.Function("qone", V, Q)
Reach = z3.Function("Reach", V, I, I, V, V, B)  # path over the links litem(l, i..j-1) in the expanded graph U

CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
PYOP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
SWAP = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod, ast.Div: operator.truediv,
       ast.FloorDiv: operator.floordiv, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.Pow: operator.pow}


class InitV(Init):
    def __init__(self, name, loop, entry, dead=False):
        self.name, self.loop, self.entry, self.dead = name, loop, entry, dead


def carried(v):
    e = CarriedRead(v.name)
    e.init = v
    raise e


class Interp(Executor):
    def __init__(self, contracts=None):
        super().__init__(contracts)
        self.frames = []
        self.pending = []
        self.try_depth = 0
        self.loopno = itertools.count()
        self.obligations = []          # (name, hyps, goal) side conditions of summaries (fold invariants)
        self.calls = 0

    # ----- functions --------------------------------------------------------------------------------------
    def call_function(self, st, fn, args, kwargs, cls=None):
        """symbolic call of a real function (or Closure) from its source"""
        self.depth += 1
        self.calls += 1
        if self.depth > 40:
            raise Unsupported("recursion")
        try:
            if isinstance(fn, Closure):
                node, glob, cells, cl, name = fn.node, fn.fr.glob, fn.env, fn.fr.cls, getattr(fn.node, "name", "<lambda>")
                defaults, kwdefaults = fn.defaults, fn.kwdefaults
            else:
                c = self.contracts.get(qual(fn))
                if c is not None:
                    return c(self, st, args, kwargs)
                node = func_ast(fn)
                glob = fn.__globals__
                cells = {}
                for n, cell in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
                    try:
                        cells[n] = cell.cell_contents
                    except ValueError:
                        pass
                cl = cls
                name = fn.__qualname__
                defaults, kwdefaults = fn.__defaults__ or (), fn.__kwdefaults__ or {}
                self.used[qual(fn)] = max(self.used.get(qual(fn), 0), getattr(node, "end_lineno", 0) - node.lineno + 1)
            fr = Frame(fn, glob, cells, cl, name)
            env = {}
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            args = list(args)
            if len(args) > len(names):
                if a.vararg is None:
                    raise Unsupported("too many arguments for %s" % name)
                env[a.vararg.arg] = tuple(args[len(names):])
                args = args[:len(names)]
            elif a.vararg is not None:
                env[a.vararg.arg] = ()
            for n, v in zip(names, args):
                env[n] = v
            kwargs = dict(kwargs)
            for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
                if n in kwargs:
                    env[n] = kwargs.pop(n)
            off = len(names) - len(defaults)
            for i, d in enumerate(defaults):
                if names[off + i] not in env:
                    env[names[off + i]] = d
            for n, d in kwdefaults.items():
                env.setdefault(n, d)
            if a.kwarg is not None:
                env[a.kwarg.arg] = kwargs
            elif kwargs:
                raise Unsupported("unexpected keyword %s" % list(kwargs))
            for n in names:
                if n not in env:
                    raise Unsupported("missing argument %s of %s" % (n, name))
            saved = st.env
            st.env = env
            if self.frames:
                # functions defined there see the variables as they are now
                self.frames[-1].live = saved
            self.frames.append(fr)
            base = len(st.ctx)
            saved_cur = self.where()
            outer_pending, self.pending = self.pending, []
            try:
                if isinstance(node, ast.Lambda):
                    r = self.eval(node.body, st)
                    self.pending = outer_pending + self.pending
                    st.env = saved
                    return r
                gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
                if gen:
                    env["$yield"] = self.new_cont(st, "list")
                    yielded = env["$yield"]
                normal, exits = self.exec_block(node.body, st)
            finally:
                self.frames.pop()
                self.cur = saved_cur
                self.pending = outer_pending
            rets = []
            if normal is not None:
                rets.append((normal, None))
            for e in exits:
                if e.kind == "return":
                    rets.append((e.st, e.value))
                elif e.kind == "raise":
                    e.st.env = saved
                    self.pending.append(e)
                else:
                    raise Unsupported(e.kind)
            if not rets:
                raise Dead()
            if gen:
                rets = [(s, yielded) for s, _ in rets]
            rets = [(s, self.seq_of(s, v)) for s, v in rets]
            if len(rets) == 1:
                s, val = rets[0]
                s.env = saved
                self.become(st, s)
                return val
            # several return points: join states and values
            for s, val in rets:
                s.env = {"$ret": val}
            m = self.merge(base, [s for s, _ in rets])
            val = m.env["$ret"]
            m.env = saved
            self.become(st, m)
            return val
        finally:
            self.depth -= 1

    def become(self, st, other):
        if st is not other:
            st.env, st.heap, st.ctx = other.env, other.heap, other.ctx

    # ----- statements -------------------------------------------------------------------------------------
    def exec_block(self, stmts, st):
        exits = []
        for s in stmts:
            self.cur = "%s:%s" % (self.frames[-1].name if self.frames else "?", getattr(s, "lineno", "?"))
            self.nlines += 1
            base = len(st.ctx)
            self.pending, keep = [], self.pending
            try:
                r, ex = self.exec_stmt(s, st)
            except Dead:
                r, ex = None, []
            finally:
                pend, self.pending = self.pending, keep
            exits += pend + ex
            if r is None:
                return None, exits
            st = r
        return st, exits

    def exec_stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st, []
        self.eval(s.value, st)
        return st, []

    def s_Pass(self, s, st):
        return st, []

    def s_Global(self, s, st):
        return st, []
    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                mod = sys_module(a.name)
            st.env[a.asname or a.name.split(".")[0]] = mod
        return st, []

    def s_ImportFrom(self, s, st):
        glob = self.frames[-1].glob
        mod = __import__(s.module or "", glob, None, [a.name for a in s.names], s.level)
        for a in s.names:
            st.env[a.asname or a.name] = getattr(mod, a.name)
        return st, []

    def s_FunctionDef(self, s, st):
        c = Closure(s, st.env, self.frames[-1])
        self.close_defaults(c, s, st)
        st.env[s.name] = c
        return st, []

    def close_defaults(self, c, node, st):
        c.defaults = tuple(self.eval(d, st) for d in node.args.defaults)
        c.kwdefaults = {a.arg: self.eval(d, st) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}

    def s_Assert(self, s, st):
        c = self.truth(st, self.eval(s.test, st))
        self.raise_if(st, AssertionError, Not(c))
        return st, []

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(st, self.eval(t.value, st), self.eval(t.slice, st))
            else:
                raise Unsupported("del")
        return st, []

    def delitem(self, st, recv, key):
        raise Unsupported("del item")

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else None
        return None, [Exit("return", st, v)]

    def s_Break(self, s, st):
        return None, [Exit("break", st)]

    def s_Continue(self, s, st):
        return None, [Exit("continue", st)]

    def s_Raise(self, s, st):
        cls = Exception
        if s.exc is not None:
            f = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            v = self.eval(f, st)
            if isinstance(v, type):
                cls = v
            else:
                cls = getattr(v, "cls", Exception)
        elif getattr(self, "handling", None):
            cls = self.handling[-1]
        return None, [Exit("raise", st, cls)]

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st, []

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return st, []

    def s_AugAssign(self, s, st):
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, st)
        elif isinstance(s.target, ast.Attribute):
            cur = self.getattr(st, self.eval(s.target.value, st), s.target.attr)
        elif isinstance(s.target, ast.Subscript):
            recv, key = self.eval(s.target.value, st), self.eval(s.target.slice, st)
            cur = self.getitem(st, recv, key)
            v = self.eval(s.value, st)
            if isinstance(cur, (DictSlot,)) and isinstance(s.op, ast.BitOr):
                cur.update(self, st, v)
                return st, []
            if isinstance(cur, Cont):
                self.extend(st, cur, v)
                return st, []
            self.setitem(st, recv, key, self.binop(st, type(s.op), cur, v))
            return st, []
        v = self.eval(s.value, st)
        if isinstance(cur, (list, set, dict)):
            cur = self.lift(st, cur)
        if isinstance(cur, Cont) and isinstance(s.op, (ast.Add, ast.BitOr)):
            self.extend(st, cur, v)        # in place
            return st, []
        self.assign(s.target, self.binop(st, type(s.op), cur, v), st)
        return st, []

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in getattr(fr, "globals", ()):
                raise Unsupported("assignment to a global")
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(st, v, len(t.elts))
            for a, b in zip(t.elts, vs):
                self.assign(a, b, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.eval(t.value, st), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(st, self.eval(t.value, st), self.eval(t.slice, st), v)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def unpack(self, st, v, n):
        if isinstance(v, (tuple, list)) and len(v) == n:
            return list(v)
        if isinstance(v, Phi):
            cols = [self.unpack(st, a, n) for _, a in v.alts]
            return [self.mkphi([(c, col[i]) for (c, _), col in zip(v.alts, cols)]) for i in range(n)]
        if isinstance(v, (Init, AccDelta)):
            carried(v) if isinstance(v, InitV) else self._cr(v)
        if isinstance(v, z3.ExprRef) and v.sort() == Q:
            return [q_at(v, z3.IntVal(i)) for i in range(n)]
        raise Unsupported("unpacking %r" % (v,))

    def _cr(self, v):
        raise CarriedRead(v.name)

    def mkphi(self, alts):
        r = None
        for c, a in reversed(alts):
            r = a if r is None else self.ite(c, a, r)
        return r

    def s_If(self, s, st):
        test = self.idiom_test(s, st)
        c = self.truth(st, test)
        c = self.fold_known(st, c)
        if z3.is_true(c):
            return self.exec_block(s.body, st)
        if z3.is_false(c):
            return self.exec_block(s.orelse, st)
        base = len(st.ctx)
        s1, s2 = st, st.clone()
        s1.assume(c)
        s2.assume(Not(c))
        n1, e1 = (self.exec_block(s.body, s1)) if self.feasible(s1) else (None, [])
        n2, e2 = (self.exec_block(s.orelse, s2)) if self.feasible(s2) else (None, [])
        return self.merge(base, [x for x in (n1, n2) if x is not None]), e1 + e2

    def feasible(self, st):
        return not z3.is_false(And(*st.conds_since(0)))

    def fold_known(self, st, c):
        if z3.is_true(c) or z3.is_false(c):
            return c
        ids = {}
        for k, x in st.ctx:
            if k == "c":
                for y in (x.children() if z3.is_and(x) else [x]):
                    ids[y.get_id()] = y
        conj = c.children() if z3.is_and(c) else [c]
        if all(x.get_id() in ids for x in conj):
            return TRUE
        for x in conj:
            if Not(x).get_id() in ids:
                return FALSE
        disj = c.children() if z3.is_or(c) else []
        if any(x.get_id() in ids for x in disj):
            return TRUE
        return c

    def idiom_test(self, s, st):
        """`if x not in C [and ...]: C.append(x)`: for the elements of C the guard makes no difference"""
        if not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call):
            call = s.body[0].value
            if isinstance(call.func, ast.Attribute) and call.func.attr in ("append", "add") and len(call.args) == 1:
                coll, elt = ast.dump(call.func.value), ast.dump(call.args[0])

                def is_guard(t):
                    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotIn) and \
                        ast.dump(t.left) == elt and ast.dump(t.comparators[0]) == coll
                recv = None
                if is_guard(s.test) or isinstance(s.test, ast.BoolOp):
                    try:
                        recv = self.eval(call.func.value, st.clone())
                    except (Unsupported, CarriedRead):
                        recv = None
                if isinstance(recv, (Cont, list, set)):
                    if is_guard(s.test):
                        return True
                    if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                        rest = [v for v in s.test.values if not is_guard(v)]
                        if len(rest) < len(s.test.values):
                            return self.eval(ast.BoolOp(op=ast.And(), values=rest) if len(rest) > 1 else rest[0], st)
        return self.eval(s.test, st)

    def s_With(self, s, st):
        raise Unsupported("with statement")

    def s_Try(self, s, st):
        base = len(st.ctx)
        start = st.clone()
        self.try_depth += 1
        try:
            normal, exits = self.exec_block(s.body, st)
        finally:
            self.try_depth -= 1
        out = []
        states = []
        if normal is not None and s.orelse:
            normal, ex = self.exec_block(s.orelse, normal)
            out += ex
        if normal is not None:
            states.append(normal)
        for e in exits:
            if e.kind != "raise":
                out.append(e)
                continue
            handled = False
            for h in s.handlers:
                classes = ()
                if h.type is not None:
                    hv = self.eval(h.type, e.st)
                    classes = hv if isinstance(hv, tuple) else (hv,)
                if h.type is None or issubclass(e.value, classes):
                    handled = True
                    hs = e.st
                    if h.name:
                        hs.env[h.name] = Opaque("exception")
                    self.handling = getattr(self, "handling", []) + [e.value]
                    n, ex = self.exec_block(h.body, hs)
                    self.handling.pop()
                    out += ex
                    if n is not None:
                        states.append(n)
                    break
            if not handled:
                out.append(e)
        res = self.merge(base, states)
        if s.finalbody:
            outs = []
            if res is not None:
                res, ex = self.exec_block(s.finalbody, res)
                outs += ex
            for e in out:
                n, ex = self.exec_block(s.finalbody, e.st)
                outs += ex
                if n is not None:
                    e.st = n
                    outs.append(e)
            out = outs
        return res, out

    def raise_if(self, st, cls, cond, note=""):
        cond = self.fold_known(st, cond)
        if z3.is_false(cond) or z3.is_false(And(*(st.conds_since(0) + [cond]))):
            return
        r = st.clone()
        r.assume(cond)
        if self.try_depth:
            self.pending.append(Exit("raise", r, cls))
        else:
            self.raises.append((cls, r, note or self.where()))
        if z3.is_true(cond):
            raise Dead()
        st.assume(Not(cond))

    # ----- loops --------------------------------------------------------------------------------------------
    def s_For(self, s, st):
        it = self.seq_of(st, self.eval(s.iter, st))
        return self.for_loop(s.target, it, s.body, s.orelse, st)

    def loop_items(self, st, it):
        """list of ('elem', conds, value) / ('bag', piece) / ('seq', Seq, conds)"""
        if isinstance(it, (list, set, frozenset, dict)):
            l = self.lifted(st, it)
            if l is not it:
                it = l
        if isinstance(it, dict):
            it = list(it)
        if isinstance(it, (type({}.keys()), type({}.values()), type({}.items()))):
            it = list(it)
        if isinstance(it, (tuple, list, set, frozenset, range, str)):
            items = list(it)

            def termlike(x):
                return isinstance(x, (URIRef, Literal)) or (isinstance(x, tuple) and x and all(isinstance(y, (URIRef, Literal)) for y in x))
            if len(items) > self.UNROLL and all(termlike(x) for x in items):
                t = table(items)
                if t.arity == 1 and not isinstance(items[0], tuple):
                    b = fresh("e")
                    return [("bag", Piece([b], [t.has(b)], b))]
                bs = tuple(fresh("e") for _ in range(t.arity))
                return [("bag", Piece(bs, [t.has(*bs)], bs))]
            if isinstance(it, (set, frozenset)) or not isinstance(it, (list, tuple, range, str)):
                items = sorted(items, key=repr)
            return [("elem", [], x) for x in items]
        if isinstance(it, GraphRef):
            return self.loop_items(st, self.g_triples(st, it.part, (None, None, None)))
        if isinstance(it, Bag):
            for loc in it.lazy:
                self.reads.append(loc[0])
            return [("bag", p) for p in it.pieces]
        if isinstance(it, Seq):
            return [("seq", it, [])]
        if isinstance(it, Phi):
            out = []
            for c, a in self.live_alts(st, it):
                if z3.is_false(And(*(st.conds_since(0) + [c]))):
                    continue
                for item in self.loop_items(st, a):
                    if item[0] == "elem":
                        out.append(("elem", [c] + list(item[1]), item[2]))
                    elif item[0] == "bag":
                        p = item[1]
                        out.append(("bag", Piece(p.binders, (c,) + tuple(p.conds), p.value)))
                    else:
                        out.append(("seq", item[1], [c] + list(item[2])))
            return out
        if isinstance(it, z3.ExprRef) and it.sort() == Q:
            return [("seq", Seq(q_len(it), lambda i: q_at(it, i)), [])]
        return [("bag", p) for p in self.as_pieces(st, it)]

    def for_loop(self, target, it, body, orelse, st):
        items = self.loop_items(st, it)
        broken, exits = [], []
        cur = st
        st0 = st.clone()
        lazy = it.lazy if isinstance(it, Bag) else ()
        for item in items:
            if cur is None:
                break
            if item[0] == "elem" or (item[0] == "bag" and not item[1].binders):
                conds, value = (item[1], item[2]) if item[0] == "elem" else (item[1].conds, item[1].value)
                c = self.fold_known(cur, And(*conds))
                if z3.is_false(c):
                    continue
                base = len(cur.ctx)
                skip = None
                if not z3.is_true(c):
                    skip = cur.clone()
                    skip.assume(Not(c))
                    cur.assume(c)
                self.assign(target, value, cur)
                n, ex = self.exec_block(body, cur)
                ends = [n] if n is not None else []
                for e in ex:
                    if e.kind == "continue":
                        ends.append(e.st)
                    elif e.kind == "break":
                        broken.append(e.st)
                    else:
                        exits.append(e)
                if skip is not None:
                    ends.append(skip)
                cur = self.merge(base, ends)
            else:
                if item[0] == "bag":
                    p = item[1]
                    bs, conds, value, seq = p.binders, p.conds, p.value, None
                    # fresh binders: the same piece may be iterated several times
                    ren = [(b, fresh("b", b.sort())) for b in bs]
                    bs = [r for _, r in ren]
                    conds = [subst(c, ren) for c in conds]
                    value = self.map_value(value, lambda e: subst(e, ren))
                else:
                    i = fresh("i", I)
                    seq = item[1]
                    bs, conds, value = [i], list(item[2]) + seq.domain(i), seq.raw(i)
                n, brk, ex = self.loop_piece(cur, bs, conds, value, seq, target, body, lazy)
                cur = n
                broken += brk
                exits += ex
        if cur is not None and cur is not st0 and not exits and not broken and not any(k == "b" for k, x in st0.ctx) and len(items) > 1:
            self.compact(st0, cur)
        if cur is not None and orelse:
            cur, ex = self.exec_block(orelse, cur)
            exits += ex
        states = ([cur] if cur is not None else []) + broken
        if not states:
            return None, exits
        return self.merge(len(st.ctx) if cur is None else min(len(x.ctx) for x in states + [self._prefix(states)]), states), exits

    def _prefix(self, states):
        """a state whose context is the common prefix"""
        c = states[0].ctx
        n = len(c)
        for s in states[1:]:
            k = 0
            while k < min(n, len(s.ctx)) and (s.ctx[k] is c[k] or (s.ctx[k][0] == c[k][0] and s.ctx[k][1].eq(c[k][1]))):
                k += 1
            n = k
        p = State()
        p.ctx = list(c[:n])
        return p

    def loop_piece(self, st, bs, conds, value, seq, target, body, lazy, fold=None, havoc=None):
        base = st.clone()
        depth = len(base.ctx)
        W = assigned_names(body) | assigned_names([ast.Assign(targets=[target], value=ast.Constant(0))])
        loop = next(self.loopno)
        havoc = havoc or {}
        self_ = self

        def run(nb):
            s = base.clone()
            for b in bs:
                s.ctx.append(("b", b))
            for c in conds:
                s.assume(c)
            if nb is not None:
                s.assume(nb)
            for w in W:
                if w in s.env:
                    if fold and w in fold:
                        s.env[w] = fold[w].at(self_, s, z3.simplify(bs[0] - seq.off) if seq is not None else bs[0])
                    else:
                        s.env[w] = InitV(w, loop, base.env[w])
            for loc, K in havoc.items():
                self_.apply_havoc(s, loc, K, bs)
            self_.assign(target, value, s)
            mark = len(self_.reads)
            nr = len(self_.raises)
            if lazy:
                self_.reads.extend(l[0] for l in lazy)
            normal, exits = self_.exec_block(body, s)
            return normal, exits, set(self_.reads[mark:]), nr

        def attempt(nb):
            try:
                return run(nb)
            except CarriedRead as e:
                v = getattr(e, "init", None)
                if v is None or v.loop != loop or v.dead or fold is not None and e.name in fold:
                    raise
                return e
        nfacts, nraises = len(self.facts), len(self.raises)
        res = attempt(None)
        if isinstance(res, CarriedRead):
            del self.facts[nfacts:], self.raises[nraises:]
            f = dict(fold or {})
            f[res.name] = self.fold_candidate(base, res.name, base.env[res.name], seq, bs)
            return self.loop_piece(st, bs, conds, value, seq, target, body, lazy, fold=f, havoc=havoc)
        normal, exits, reads, nr = res
        # containers read and written in the same loop: what earlier iterations wrote is arbitrary
        allst = ([normal] if normal is not None else []) + [e.st for e in exits]
        for loc in reads:
            if loc in havoc or loc not in base.heap:
                continue
            a = base.heap[loc]
            for s in allst:
                b = s.heap.get(loc)
                if b is not a and isinstance(a, (Content, GLog)):
                    h = dict(havoc)
                    new = [p for p in (b.pieces if isinstance(b, Content) else b.ops)][len(a.pieces if isinstance(a, Content) else a.ops):]
                    if isinstance(a, Content):
                        arity = 1 if not isinstance(new[0].value, tuple) else len(new[0].value)
                    else:
                        if any(op[0] == "remove" for op in new):
                            raise Unsupported("graph is reduced while it is read")
                        if any(isinstance(x, tuple) and x and x[0] == "graph" for x in lazy):
                            self.stability.append((lazy, [op[2] for op in new], list(base.ctx)))
                        arity = 3
                    K = z3.Function("K%d" % next(sym._counter), *([x.sort() for k, x in base.ctx if k == "b"] +
                                    [x.sort() for x in bs] + [V] * arity + [B]))
                    h[loc] = K
                    self.havocs[K.name()] = (loc, arity, K, self.where())
                    del self.facts[nfacts:], self.raises[nraises:]
                    return self.loop_piece(st, bs, conds, value, seq, target, body, lazy, fold=fold, havoc=h)
        stoppers = [e for e in exits if e.kind != "continue"]
        inner = [x for k, x in base.ctx if k == "b"]
        stop_closed = FALSE
        if stoppers:
            dom = And(*conds)
            Bc = Or(*[self.close_inner(e.st, depth, bs) for e in stoppers])     # includes dom
            stop_closed = Exists(bs, And(dom, Bc))
            NB = z3.Function("NB%d" % next(sym._counter), *([x.sort() for x in inner] + [x.sort() for x in bs] + [B]))
            nb = NB(*(inner + list(bs)))
            bs2 = [fresh("w", b.sort()) for b in bs]
            ren = list(zip(bs, bs2))
            ctxc = And(*[x for k, x in base.ctx if k == "c"])
            cl = (lambda f: z3.ForAll(inner, f) if inner else f)
            self.facts.append(cl(z3.Implies(stop_closed, z3.Exists(list(bs), z3.And(dom, nb, Bc)))))
            if seq is not None and len(bs) == 1:
                j = fresh("j", I)
                Bj, dj = subst(Bc, [(bs[0], j)]), subst(dom, [(bs[0], j)])
                self.facts.append(z3.ForAll(inner + list(bs), z3.Implies(dom, nb == z3.ForAll([j], z3.Implies(z3.And(dj, j < bs[0]), z3.Not(Bj)))), patterns=[nb]))
            else:
                self.facts.append(z3.ForAll(inner + list(bs), z3.Implies(z3.And(z3.Not(stop_closed), dom), nb), patterns=[nb]))
            del self.raises[nraises:]
            self.firsts[nb.get_id()] = (nb, bs, Bc, stop_closed)
            res = attempt(nb)
            if isinstance(res, CarriedRead):
                raise Unsupported("loop")
            normal, exits, reads, nr = res
        out_exits, breaks, ends = [], [], ([normal] if normal is not None else [])
        for e in exits:
            if e.kind == "continue":
                ends.append(e.st)
            elif e.kind == "break":
                breaks.append(e.st)
            else:
                out_exits.append(e)
        for loc in set(havoc):
            for s in ends + breaks + [e.st for e in out_exits]:
                self.drop_havoc(s, loc, havoc[loc], base)
        # state after the loop
        after = base.clone()
        if ends or breaks or out_exits:
            every = ends + breaks + [e.st for e in out_exits]
            h = every[0].heap
            for s in every[1:]:
                h = self.merge_heap(TRUE, s.heap, h) if False else self.union_heap(base.heap, h, s.heap)
            after.heap = self.loop_heap(base, every, h, depth, bs, nb if stoppers else None)
            if stoppers:
                after.heap = self.without_first(base.heap, after.heap, bs, nb, base)
        if not inner:
            self.compact(base, after)
        if fold:
            self.check_fold(fold, base, ends, seq, bs, depth)
        nb_ = nb if stoppers else None
        for w in W:
            after.env[w] = self.after_value(w, loop, base, ends + breaks, depth, bs, fold, seq, nb_)
        brk_states = []
        if stoppers:
            done = after
            brk = self.close_first(bs, Or(*[self.close_inner(s, depth, bs) for s in breaks]), nb) if breaks else FALSE
            # the element that stops the loop: a function of the context
            wit = [(b, z3.Function("w%d" % next(sym._counter), *([x.sort() for x in inner] + [b.sort()]))(*inner) if inner else fresh("w", b.sort()))
                   for b in bs]
            self.facts.append(cl(z3.Implies(stop_closed, z3.And(*[subst(x, wit) for x in (dom, nb, Bc)]))))
            if breaks:
                # leaving by break: same heap; flags as computed over all iterations
                b = after.clone()
                lost = [w for w in W if (fold and w in fold) or (isinstance(b.env.get(w), InitV) and b.env[w].dead)]
                kept = [w for w in lost if all(not isinstance(s.env.get(w, UNSET), (InitV, AccDelta)) and s.env.get(w, UNSET) is not UNSET for s in breaks)]
                b.assume(brk)
                for w in lost:
                    b.env[w] = InitV(w, loop, None, dead=True)
                for w in kept:
                    # value in the stopping iteration (what is known about it is in the fact above)
                    v = self.at_witness(breaks[-1].env[w], wit)
                    for s in breaks[-2::-1]:
                        v = self.ite(subst(self.close_inner(s, depth, bs), wit), self.at_witness(s.env[w], wit), v)
                    b.env[w] = v
                brk_states.append(b)
            done = after.clone()
            done.assume(Not(stop_closed))
            if fold:
                for w in fold:
                    done.env[w] = fold[w].at(self, done, seq.length)
            ids = set(b.get_id() for b in bs)
            for e in out_exits:
                # one iteration leaves: its element is the witness
                e.st.heap = after.heap
                e.st.ctx = e.st.ctx[:depth] + [(k, x if k == "b" else subst(x, wit)) for k, x in e.st.ctx[depth:] if k != "b" or x.get_id() not in ids]
                e.st.env = {k: self.at_witness(v, wit) for k, v in e.st.env.items()}
                e.value = self.at_witness(e.value, wit)
            return done, brk_states, out_exits
        if fold:
            for w in fold:
                after.env[w] = fold[w].at(self, after, seq.length)
        if seq is not None and len(ends) == 1 and not fold and not havoc and not out_exits:
            self.note_seqs(base, after, seq, bs)
        return after, [], out_exits

    def note_seqs(self, base, after, seq, bs):
        """an empty list to which each iteration over a sequence appends one element"""
        known = set(c.get_id() for k, c in base.ctx if k == "c") | set(c.get_id() for c in seq.domain(bs[0]))
        outer = set(x.get_id() for k, x in base.ctx if k == "b") | set(b.get_id() for b in bs)
        for v in list(after.env.values()):
            if not (isinstance(v, Cont) and v.kind == "list"):
                continue
            a, b = base.heap.get(v.loc), after.heap.get(v.loc)
            if not (isinstance(a, Content) and isinstance(b, Content)) or a.pieces or len(b.pieces) != 1 or getattr(v, "literal", None):
                continue
            p = b.pieces[0]
            val = p.value
            if not isinstance(val, (z3.ExprRef, tuple)) or any(c.get_id() not in known for c in p.conds) or any(x.get_id() not in outer for x in p.binders):
                continue
            if any(isinstance(x, Cont) and x.loc == v.loc for d in after.heap.values() if isinstance(d, dict) for x in d.values()):
                continue
            raw = lambda i, val=val: self.map_value(val, lambda e: subst(e, [(bs[0], i)]))
            ident = isinstance(val, z3.ExprRef) and z3.simplify(val).eq(z3.simplify(seq.raw(bs[0]))) if isinstance(seq.raw(bs[0]), z3.ExprRef) else False
            off = seq.off
            self.seqs[v.loc] = (b, Seq(seq.length, lambda i, raw=raw: raw(z3.simplify(off + i)), seq.key if ident else None, off=seq.off, hi=seq.hi, raw=raw))

    def seq_of(self, st, v):
        """a list known to be a sequence"""
        if isinstance(v, Cont) and v.loc in self.seqs and st.heap.get(v.loc) is self.seqs[v.loc][0]:
            return self.seqs[v.loc][1]
        return v

    def compact(self, base, after):
        """a dictionary with many groups of entries after a loop: one defined predicate; so for many additions to the graph"""
        for loc, c in list(after.heap.items()):
            if isinstance(c, GLog) and c is not base.heap.get(loc):
                old = base.heap[loc].ops
                new = c.ops[len(old):]
                if len(new) > 12 and all(x is y for x, y in zip(c.ops, old)) and all(op[0] == "add" and op[1] == "D" for op in new):
                    ps = [op[2] for op in new]
                    K = z3.Function("K%d" % next(sym._counter), V, V, V, B)
                    t = [fresh("c") for _ in range(3)]
                    body = Or(*[Exists(p.binders, And(*(list(p.conds) + [Eq(self.to_V(x), y) for x, y in zip(p.value, t)]))) for p in ps])
                    self.facts.append(z3.ForAll(t, K(*t) == body, patterns=[K(*t)]))
                    b = [fresh("c") for _ in range(3)]
                    after.heap[loc] = GLog(old + (("add", "D", Piece(b, [K(*b)], tuple(b), self.where())),))
                continue
            if not isinstance(c, Content) or c is base.heap.get(loc) or len(c.pieces) < 4:
                continue
            if not all(isinstance(p.value, tuple) and len(p.value) == 2 and all(isinstance(x, z3.ExprRef) and x.sort() == V for x in p.value) for p in c.pieces):
                continue
            K = z3.Function("K%d" % next(sym._counter), V, V, B)
            k, v = fresh("key"), fresh("val")
            body = Or(*[Exists(p.binders, And(*(list(p.conds) + [Eq(p.value[0], k), Eq(p.value[1], v)]))) for p in c.pieces])
            self.facts.append(z3.ForAll([k, v], K(k, v) == body, patterns=[K(k, v)]))
            a, b = fresh("key"), fresh("val")
            after.heap[loc] = Content([Piece([a, b], [K(a, b)], (a, b), self.where())], c.depth)

    def at_witness(self, v, wit):
        if isinstance(v, (z3.ExprRef, tuple, Phi)):
            return self.map_value(v, lambda e: subst(e, wit))
        if isinstance(v, Bag):
            return Bag([Piece(p.binders, [subst(c, wit) for c in p.conds], self.at_witness(p.value, wit), p.origin) for p in v.pieces])
        if isinstance(v, Seq):
            f = lambda e: subst(e, wit)
            return Seq(f(v.length), lambda i: self.at_witness(v.item(i), wit), None if v.key is None else tuple(f(x) for x in v.key), off=f(v.off), hi=f(v.hi),
                       raw=lambda i: self.at_witness(v.raw(i), wit))
        return v

    def close_first(self, bs, f, nb):
        """exists an element with f, where f may say that no earlier element stopped the loop: if f says no more than that the
        element stops the loop, this is the same as: some element stops it (the first one does)"""
        if nb is not None and nb.get_id() in self.firsts:
            _, bs0, Bc, stop_closed = self.firsts[nb.get_id()]
            g = And(subst(f, [(nb, TRUE)]))
            if canon(g) == canon(And(Bc)):
                return stop_closed
        return Exists(bs, f)

    def without_first(self, h0, h, bs, nb, base):
        """elements added by stopping iterations only, not depending on the iteration: the `no earlier stop` is dropped"""
        _, bs0, Bc, stop_closed = self.firsts[nb.get_id()]
        own = set(b.get_id() for b in bs)
        outer = set(x.get_id() for k, x in base.ctx if k == "b")
        have = set(c.get_id() for k, c in base.ctx if k == "c")
        want = canon(And(Bc))

        def conv(p):
            if not any(c.get_id() == nb.get_id() for c in p.conds) or self.mentions(p.value, bs):
                return p
            other = [b for b in p.binders if b.get_id() not in own and b.get_id() not in outer]
            if self.mentions(p.value, other):
                return p
            f = Exists(other, And(*[c for c in p.conds if c.get_id() != nb.get_id() and c.get_id() not in have]))
            if canon(f) != want:
                return p
            return Piece(p.binders, [c for c in p.conds if c.get_id() != nb.get_id()], p.value, p.origin)
        out = dict(h)
        for loc, a in h.items():
            b = h0.get(loc)
            if a is b: continue
            if isinstance(a, Content):
                old = set(id(p) for p in b.pieces) if b is not None else set()
                ps = [p if id(p) in old else conv(p) for p in a.pieces]
                if any(p is not q for p, q in zip(ps, a.pieces)):
                    out[loc] = Content(ps, a.depth)
            elif isinstance(a, GLog):
                old = set(id(p) for p in b.ops)
                ops = [op if id(op) in old else (op[0], op[1], conv(op[2])) for op in a.ops]
                if any(p[2] is not q[2] for p, q in zip(ops, a.ops)):
                    out[loc] = GLog(ops)
        return out

    def close_inner(self, s, depth, bs):
        """condition of a state of the body, over the loop's own binders"""
        own = set(b.get_id() for b in bs)
        other = [b for b in s.binders_since(depth) if b.get_id() not in own]
        return Exists(other, And(*s.conds_since(depth)))

    def union_heap(self, base, h1, h2):
        out = dict(h1)
        for loc, b in h2.items():
            a = h1.get(loc)
            if a is None:
                out[loc] = b
            elif a is b:
                continue
            elif isinstance(a, Content):
                ids = set(id(p) for p in a.pieces)
                out[loc] = Content(a.pieces + tuple(p for p in b.pieces if id(p) not in ids), a.depth)
            elif isinstance(a, GLog):
                ids = set(id(p) for p in a.ops)
                out[loc] = GLog(a.ops + tuple(p for p in b.ops if id(p) not in ids))
        return out

    def loop_heap(self, base, states, h, depth, bs, nb=None):
        """attribute dictionaries after the loop"""
        out = dict(h)
        for loc, a in base.heap.items():
            if not isinstance(a, dict):
                continue
            changed = set()
            for s in states:
                for k in set(a) | set(s.heap[loc]):
                    if s.heap[loc].get(k, UNSET) is not a.get(k, UNSET):
                        changed.add(k)
            if not changed:
                out[loc] = a
                continue
            d = dict(a)
            for k in changed:
                vals = []
                for s in states:
                    v = s.heap[loc].get(k, UNSET)
                    for c, x in (v.alts if isinstance(v, Phi) else [(TRUE, v)]):
                        if x is not a.get(k, UNSET):
                            vals.append((And(self.close_inner(s, depth, bs), c), x))
                if any(isinstance(x, (Cont, Obj)) for _, x in vals) or \
                        not all(self.same_value(vals[0][1], x) for _, x in vals) or self.mentions(vals[0][1], bs):
                    raise Unsupported("attribute %s re-assigned in a loop" % k)
                d[k] = self.ite(self.close_first(bs, Or(*[c for c, _ in vals]), nb), vals[0][1], a.get(k, UNSET))
            out[loc] = d
        return out

    def same_value(self, a, b):
        if a is b: return True
        za, zb = self.to_z3(a) if not isinstance(a, (tuple, Phi)) else None, self.to_z3(b) if not isinstance(b, (tuple, Phi)) else None
        if za is not None and zb is not None:
            return za.sort() == zb.sort() and za.eq(zb)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.same_value(x, y) for x, y in zip(a, b))
        return False

    def mentions(self, v, bs):
        ids = set(b.get_id() for b in bs)
        return any(free_ids(e) & ids for e in value_exprs(v))

    def after_value(self, w, loop, base, states, depth, bs, fold, seq, nb=None):
        entry = base.env.get(w, UNSET)
        vals, deltas = [], []
        for s in states:
            v = s.env.get(w, UNSET)
            for c, x in (v.alts if isinstance(v, Phi) else [(TRUE, v)]):
                if isinstance(x, AccDelta) and getattr(x, "loop", None) == loop:
                    deltas.append(x)
                elif isinstance(x, InitV) and x.loop == loop:
                    pass
                elif x is UNSET:
                    pass
                else:
                    if isinstance(x, z3.ExprRef) and z3.is_app_of(x, z3.Z3_OP_ITE):
                        pass
                    vals.append((And(self.close_inner(s, depth, bs), c), x))
        dead = InitV(w, loop, None, dead=True)
        if deltas and not vals:
            pieces = []
            for d in deltas:
                pieces += [p for p in d.pieces if all(p is not q for q in pieces)]
            ent = self.entry_pieces(base, entry)
            after = self.new_cont_depth(base, d.kind, ent[0] + pieces, ent[1])
            return after
        if not deltas and not vals:
            return entry
        if deltas:
            return dead
        k = vals[0][1]
        if isinstance(k, (Cont, Obj, Bag, Seq, InitV, AccDelta)) or not all(self.same_value(k, x) for _, x in vals) or self.mentions(k, bs):
            if fold and w in fold:
                return dead
            return dead
        cond = self.close_first(bs, Or(*[c for c, _ in vals]), nb)
        return self.ite(cond, k, entry)

    def new_cont_depth(self, st, kind, pieces, depth):
        # a container that will be put on the heap of the state using it: kept as a Bag, which needs no location
        return Bag(pieces)

    def entry_pieces(self, st, entry):
        if isinstance(entry, Cont):
            c = st.heap[entry.loc]
            return list(c.pieces), c.depth
        if isinstance(entry, Bag):
            return list(entry.pieces), len(st.ctx)
        if isinstance(entry, (list, tuple, set)):
            return [Piece([], [], x) for x in entry], len(st.ctx)
        raise Unsupported("accumulating into %r" % (entry,))

    def apply_havoc(self, s, loc, K, bs):
        inner = [x for k, x in s.ctx if k == "b"]
        arity, have = K.arity(), len(inner)
        n = arity - have
        es = [fresh("k") for _ in range(n)]
        a = s.heap[loc]
        if isinstance(a, Content):
            val = es[0] if n == 1 else tuple(es)
            s.heap[loc] = Content(a.pieces + (Piece(es, [K(*(inner + es))], val, ("K", K.name())),), a.depth)
        else:
            s.heap[loc] = GLog(a.ops + (("add", "K", Piece(es, [K(*(inner + es))], tuple(es), ("K", K.name()))),))

    def drop_havoc(self, s, loc, K, base):
        a = s.heap[loc]
        if isinstance(a, Content):
            s.heap[loc] = Content([p for p in a.pieces if p.origin != ("K", K.name())], a.depth)
        else:
            s.heap[loc] = GLog([op for op in a.ops if op[2].origin != ("K", K.name())])

    def fold_candidate(self, base, name, entry, seq, bs):
        if self.fold_hook is None:
            raise Unsupported("value of %s carried between iterations" % name)
        return self.fold_hook(self, base, name, entry, seq, bs)

    def check_fold(self, fold, base, ends, seq, bs, depth):
        for w, f in fold.items():
            f.check(self, base, ends, seq, bs, depth, w)

    def s_While(self, s, st):
        if self.while_hook is None:
            raise Unsupported("while loop")
        return self.while_hook(self, s, st)

    # ----- expressions --------------------------------------------------------------------------------------
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        return e.value

    def name(self, n, st):
        if n in st.env:
            v = st.env[n]
            if isinstance(v, Opaque) and v is UNSET:
                raise Unsupported("unassigned %s" % n)
            return v
        fr = self.frames[-1]
        f = fr.fn
        while isinstance(f, Closure):
            live = getattr(f.fr, "live", None)
            if "$comp" not in f.env and live is not None and n in live and any(f.fr is g for g in self.frames):
                if live[n] is UNSET:
                    raise Unsupported("unassigned %s" % n)
                return live[n]
            f = f.fr.fn
        if isinstance(fr.cells, dict) and n in fr.cells:
            return fr.cells[n]
        c = fr
        # enclosing symbolic frames of a Closure
        f = fr.fn
        while isinstance(f, Closure):
            if n in f.env:
                return f.env[n]
            f = f.fr.fn
            if not isinstance(f, Closure):
                break
        if isinstance(fr.fn, Closure):
            g = fr.fn.fr
            while g is not None:
                if isinstance(g.cells, dict) and n in g.cells:
                    return g.cells[n]
                g = g.fn.fr if isinstance(g.fn, Closure) else None
        if n in fr.glob:
            return fr.glob[n]
        if n in ("__class__",) and fr.cls is not None:
            return fr.cls
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise Unsupported("name %s" % n)

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                if not isinstance(v, (tuple, list)):
                    raise Unsupported("starred")
                out += list(v)
            else:
                out.append(self.eval(x, st))
        return tuple(out)

    def e_List(self, e, st):
        c = self.new_cont(st, "list")
        vals = self.e_Tuple(e, st)
        for v in vals:
            self.emit(st, c.loc, v)
        c.literal = vals
        return c

    def e_Set(self, e, st):
        c = self.new_cont(st, "set")
        for v in self.e_Tuple(e, st):
            self.emit(st, c.loc, v)
        return c

    def e_Dict(self, e, st):
        if all(k is not None for k in e.keys):
            ks = [self.eval(k, st) for k in e.keys]
            vs = [self.eval(v, st) for v in e.values]
            if ks and all(not isinstance(k, z3.ExprRef) for k in ks):
                # constant keys: a concrete dictionary of (possibly symbolic) values
                return dict(zip(ks, vs))
            c = self.new_cont(st, "dict")
            for k, v in zip(ks, vs):
                self.emit(st, c.loc, (k, v))
            return c
        raise Unsupported("dict display")

    def e_JoinedStr(self, e, st):
        vals = [self.eval(v.value, st) if isinstance(v, ast.FormattedValue) else None for v in e.values]
        sym_ = [v for v in vals if isinstance(v, z3.ExprRef)]
        if len(sym_) == 1 and sym_[0].sort() == I and all(v is None or isinstance(v, (z3.ExprRef, int, str)) for v in vals) and \
                all(not isinstance(v, ast.FormattedValue) or (v.conversion == -1 and v.format_spec is None) for v in e.values):
            return formatted("".join("%d" if isinstance(v, z3.ExprRef) else str(v).replace("%", "%%") if v is not None else str(n.value).replace("%", "%%")
                                     for v, n in zip(vals, e.values)), sym_[0])
        return fresh_str(self)

    def e_Lambda(self, e, st):
        c = Closure(e, st.env, self.frames[-1])
        self.close_defaults(c, e, st)
        return c

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_IfExp(self, e, st):
        c = self.fold_known(st, self.truth(st, self.eval(e.test, st)))
        if z3.is_true(c): return self.eval(e.body, st)
        if z3.is_false(c): return self.eval(e.orelse, st)
        base = len(st.ctx)
        s2 = st.clone()
        st.assume(c)
        a = self.eval(e.body, st)
        s2.assume(Not(c))
        b = self.eval(e.orelse, s2)
        s1 = st.clone()
        s1.env = dict(s1.env); s1.env["$v"] = a
        s2.env["$v"] = b
        m = self.merge(base, [s1, s2])
        v = m.env.pop("$v")
        self.become(st, m)
        return v

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        base = len(st.ctx)
        acc = None
        vals = []
        pushed = []
        for x in e.values:
            v = self.eval(x, st)
            c = self.fold_known(st, self.truth(st, v))
            vals.append((c, v))
            if (is_and and z3.is_false(c)) or (not is_and and z3.is_true(c)):
                break
            st.assume(c if is_and else Not(c))
        # leave the context of the operands
        extra = [y for k, y in st.ctx[base:]]
        st.ctx = st.ctx[:base]
        if all(isinstance(v, (bool,)) or (isinstance(v, z3.ExprRef) and v.sort() == B) for _, v in vals):
            cs = [c for c, _ in vals]
            return And(*cs) if is_and else Or(*cs)
        if len(vals) == 1:
            return vals[0][1]
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = self.ite(Not(c) if is_and else c, v, r)
        return r

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return Not(self.truth(st, v))
        if isinstance(v, z3.ExprRef) and v.sort() == I:
            return -v if isinstance(e.op, ast.USub) else v
        if isinstance(v, (int, float)):
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)](v)
        raise Unsupported("unary operator")

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            out.append(self.compare(st, op, left, right))
            left = right
        return And(*out) if len(out) > 1 else out[0]

    def compare(self, st, op, a, b):
        if isinstance(op, ast.In): return self.contains(st, b, a)
        if isinstance(op, ast.NotIn): return Not(self.contains(st, b, a))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(st, a, b)
            return r if isinstance(op, ast.Is) else Not(r)
        o = CMP[type(op)]
        for x, y, oo in ((a, b, o), (b, a, SWAP[o])):
            if isinstance(x, LenOf):
                if isinstance(y, int):
                    return self.length_cmp(st, oo, x.coll, y)
                raise Unsupported("length of an unordered collection")
        if isinstance(a, Phi):
            return Or(*[And(c, self.compare(st, op, x, b)) for c, x in self.live_alts(st, a)])
        if isinstance(b, Phi):
            return Or(*[And(c, self.compare(st, op, a, x)) for c, x in self.live_alts(st, b)])
        if o == "==": return self.eq(st, a, b)
        if o == "!=": return Not(self.eq(st, a, b))
        for v in (a, b):
            if isinstance(v, InitV): carried(v)
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            za = a if isinstance(a, z3.ExprRef) else self.const_like(a, b.sort())
            zb = b if isinstance(b, z3.ExprRef) else self.const_like(b, a.sort())
            if za.sort() == I and zb.sort() == I:
                return z3.simplify(PYOP[o](za, zb))
            za, zb = self.to_V(za), self.to_V(zb)
            self.ordered(st, za, zb)
            return {"<": f_lt(za, zb), ">": f_lt(zb, za), "<=": f_le(za, zb), ">=": f_le(zb, za)}[o]
        return z3.BoolVal(bool(PYOP[o](a, b)))

    def ordered(self, st, a, b):
        """comparison of two Python values, which may raise TypeError"""
        self.raise_if(st, TypeError, Not(f_comparable(a, b)))

    def identical(self, st, a, b):
        if isinstance(a, Phi):
            return Or(*[And(c, self.identical(st, x, b)) for c, x in self.live_alts(st, a)])
        if isinstance(b, Phi):
            return Or(*[And(c, self.identical(st, a, x)) for c, x in self.live_alts(st, b)])
        for x, y in ((a, b), (b, a)):
            if y is None or isinstance(y, bool):
                if isinstance(x, z3.ExprRef):
                    if x.sort() == V: return Eq(x, const(y)) if y is None else self.eq(st, x, y)
                    if x.sort() == B and isinstance(y, bool): return x if y else Not(x)
                    return FALSE
                if isinstance(x, Opaque) and y is None:
                    return z3.Const("none_%s" % x.name, B) if x.attrs.get("optional") else FALSE
                if isinstance(x, (Init,)): carried(x)
                return z3.BoolVal(x is y)
        if isinstance(a, GraphRef) and isinstance(b, GraphRef):
            if a.part == b.part: return TRUE
            return z3.Const("graph_is_destination", B)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            # equal values need not be the same object
            if a.sort() == b.sort() and a.sort() != B and not a.eq(b):
                return And(self.eq(st, a, b), z3.Function("same_object", a.sort(), a.sort(), B)(a, b))
            return self.eq(st, a, b)
        if isinstance(a, (Cont, Obj)) and isinstance(b, (Cont, Obj)):
            return z3.BoolVal(a.loc == b.loc)
        return z3.BoolVal(a is b)

    def e_BinOp(self, e, st):
        a, b = self.eval(e.left, st), self.eval(e.right, st)
        return self.binop(st, type(e.op), a, b)

    def binop(self, st, op, a, b):
        if isinstance(a, Phi) and not isinstance(b, Phi):
            return self.mkphi([(c, self.binop(st, op, x, b)) for c, x in self.live_alts(st, a)])
        if op is ast.Mod and isinstance(a, str):
            arg = b[0] if isinstance(b, tuple) and len(b) == 1 else b
            z = arg if isinstance(arg, z3.ExprRef) else None
            bad = fmt.percent(a, b, lambda x: False if isinstance(x, str) or x is None or (isinstance(x, z3.ExprRef) and x.sort() == V and not maybe_value(x)) else None)
            if bad is not None: self.raise_if(st, bad, TRUE)
            if z is not None and z.sort() == I and a.count("%") == 1 and ("%d" in a or "%s" in a or "%i" in a):
                return formatted(re.sub("%[dsi]", "%d", a), z)
            if not isinstance(arg, (z3.ExprRef, tuple)) and isinstance(arg, (int, str)):
                return a % arg
            return fresh_str(self)
        if op is ast.Add and (is_formatted(a) or is_formatted(b)):
            fa, fb = a, b
            if isinstance(a, str) and is_formatted(b):
                return formatted(str(a).replace("%", "%%") + format_of(b), b.arg(0))
            if isinstance(b, str) and is_formatted(a):
                return formatted(format_of(a) + str(b).replace("%", "%%"), a.arg(0))
        if isinstance(a, InitV) and op in (ast.Add, ast.BitOr):
            if isinstance(a.entry, (Cont, Bag, list, tuple, set)) and not a.dead:
                depth = st.heap[a.entry.loc].depth if isinstance(a.entry, Cont) else 0
                ps = [Piece(st.binders_since(depth) + list(p.binders), st.conds_since(depth) + list(p.conds), p.value) for p in self.as_pieces(st, b)]
                d = AccDelta(a.name, "list", ps)
                d.loop = a.loop
                return d
            carried(a)
        if isinstance(a, AccDelta) and op in (ast.Add, ast.BitOr):
            entry_depth = 0
            ps = [Piece(st.binders_since(0) + list(p.binders), st.conds_since(0) + list(p.conds), p.value) for p in self.as_pieces(st, b)]
            d = AccDelta(a.name, a.kind, a.pieces + tuple(ps))
            d.loop = a.loop
            return d
        for v in (a, b):
            if isinstance(v, InitV): carried(v)
            if isinstance(v, AccDelta): self._cr(v)
        seqlike = (Bag, Cont, Seq)
        if op is ast.Add and (isinstance(a, seqlike) or isinstance(b, seqlike) or (isinstance(a, z3.ExprRef) and a.sort() == Q)):
            if isinstance(a, z3.ExprRef) and a.sort() == Q and isinstance(b, Cont) and len(st.heap[b.loc].pieces) == 1:
                return q_snoc(a, self.to_V(st.heap[b.loc].pieces[0].value))
            if isinstance(a, Cont) and getattr(a, "literal", None) is not None and isinstance(b, Cont) and getattr(b, "literal", None) is not None:
                c = self.new_cont(st, "list")
                for v in a.literal + b.literal:
                    self.emit(st, c.loc, v)
                c.literal = a.literal + b.literal
                return c
            return Bag(self.as_pieces(st, a) + self.as_pieces(st, b))
        if op is ast.BitOr and (isinstance(a, seqlike) or isinstance(b, seqlike)):
            return Bag(self.as_pieces(st, a) + self.as_pieces(st, b))
        if op is ast.BitAnd and (isinstance(a, seqlike) or isinstance(b, seqlike)):
            return Bag([Piece(p.binders, list(p.conds) + [self.contains(st, b, p.value)], p.value) for p in self.as_pieces(st, a)])
        if op is ast.Sub and (isinstance(a, seqlike) or isinstance(b, seqlike)):
            return Bag([Piece(p.binders, list(p.conds) + [Not(self.contains(st, b, p.value))], p.value) for p in self.as_pieces(st, a)])
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            za, zb = self.to_z3(a), self.to_z3(b)
            if za is not None and zb is not None and za.sort() == I and zb.sort() == I and op in (ast.Add, ast.Sub, ast.Mult):
                return z3.simplify(BIN[op](za, zb))
            za, zb = self.to_V(a), self.to_V(b)
            if maybe_value(za) or maybe_value(zb): self.raise_if(st, TypeError, z3.Function("op_%s_fails" % op.__name__, V, V, B)(za, zb))
            return z3.Function("op_%s" % op.__name__, V, V, V)(za, zb)
        if isinstance(a, list) or isinstance(b, list):
            a, b = self.lifted(st, a) if isinstance(a, list) else a, self.lifted(st, b) if isinstance(b, list) else b
            if isinstance(a, Cont) or isinstance(b, Cont):
                return self.binop(st, op, a, b)
        return BIN[op](a, b)

    def e_Subscript(self, e, st):
        recv = self.seq_of(st, self.eval(e.value, st))
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, st) if e.slice.lower is not None else None
            hi = self.eval(e.slice.upper, st) if e.slice.upper is not None else None
            if e.slice.step is not None:
                raise Unsupported("slice step")
            return self.slice(st, recv, lo, hi)
        return self.getitem(st, recv, self.eval(e.slice, st))

    def decide(self, st, c):
        """truth of an arithmetic condition if the quantifier-free conditions of the context settle it"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        s = z3.Solver()
        limit(s, 300)
        s.add(*[x for k, x in st.ctx if k == "c" and not _has_quant(x)])
        lens, stack = [], [c]
        while stack:
            x = stack.pop()
            if z3.is_app(x):
                if x.decl().eq(llen): lens.append(x)
                stack.extend(x.children())
        s.add(*[x >= 0 for x in lens])
        for v, r in ((z3.Not(c), True), (c, False)):
            s.push()
            s.add(v)
            if s.check() == z3.unsat:
                return r
            s.pop()
        return None

    def slice(self, st, recv, lo, hi):
        if isinstance(recv, Phi):
            return self.mkphi([(c, self.slice(st, x, lo, hi)) for c, x in self.live_alts(st, recv)])
        if isinstance(recv, (tuple, str, list)) and not isinstance(self.lifted(st, recv) if isinstance(recv, list) else recv, Cont):
            if all(x is None or isinstance(x, int) for x in (lo, hi)):
                return recv[lo:hi]
        if isinstance(recv, Cont) and lo is None and hi is None:
            return Bag(self.as_pieces(st, recv))
        if isinstance(recv, Seq):
            n = recv.length
            lo_ = z3.IntVal(0) if lo is None else self.to_z3(lo)
            hi_ = n if hi is None else self.to_z3(hi)

            def ite(c, a, b):
                d = self.decide(st, c)
                return a if d is True else b if d is False else z3.If(c, a, b)

            def norm(x):
                if z3.is_int_value(x):
                    k = x.as_long()
                    return ite(n + k < 0, z3.IntVal(0), n + k) if k < 0 else (ite(x > n, n, x) if k > 0 else x)
                return ite(x < 0, ite(n + x < 0, z3.IntVal(0), n + x), ite(x > n, n, x))
            same_hi = hi is None
            a = norm(lo_)
            b = n if same_hi else norm(hi_)
            ln = z3.simplify(ite(b - a < 0, z3.IntVal(0), b - a))
            off = lo_ if (z3.is_int_value(lo_) and lo_.as_long() >= 0) else a
            key = None
            if recv.key is not None:
                key = (recv.key[0], z3.simplify(recv.key[1] + off))
            raw = recv.item if recv.key is None else recv.raw
            base = z3.IntVal(0) if recv.key is None else recv.off
            return Seq(ln, lambda i, r=recv, o=off: r.item(z3.simplify(i + o)), key, off=z3.simplify(base + off), hi=z3.simplify(base + b), raw=raw)
        if isinstance(recv, InitV): carried(recv)
        raise Unsupported("slice of %r" % (recv,))

    def getitem(self, st, recv, key):
        if isinstance(recv, Phi):
            return self.mkphi([(c, self.getitem(st, x, key)) for c, x in self.live_alts(st, recv)])
        if isinstance(recv, InitV): carried(recv)
        if isinstance(recv, (list, dict)):
            recv = self.lifted(st, recv)
        if isinstance(recv, Seq):
            k = self.to_z3(key)
            if k is None or k.sort() != I:
                raise Unsupported("index")
            if z3.is_int_value(k) and k.as_long() < 0:
                k = z3.simplify(recv.length + k)
            self.raise_if(st, IndexError, z3.simplify(z3.Or(k < 0, k >= recv.length)))
            return recv.item(k)
        if isinstance(recv, z3.ExprRef) and recv.sort() == Q:
            return q_at(recv, self.to_z3(key))
        if isinstance(recv, Cont) and recv.kind in ("dict", "ddset"):
            return DictSlot.get(self, st, recv, key)
        if isinstance(recv, Cont) and getattr(recv, "literal", None) is not None and isinstance(key, int):
            return recv.literal[key]
        if isinstance(recv, (Cont, Bag)) and key == 0 or (isinstance(recv, (Cont, Bag)) and key == -1):
            # some element of an unordered collection
            ne = self.truth(st, recv)
            self.raise_if(st, IndexError, Not(ne))
            return self.some_element(st, recv)
        if isinstance(recv, dict):
            return self.dict_lookup(st, recv, key, None, True)
        if isinstance(recv, (tuple, list, str)) and isinstance(key, int):
            if not -len(recv) <= key < len(recv):
                self.raise_if(st, IndexError, TRUE)
            return recv[key]
        if not isinstance(key, z3.ExprRef) and not isinstance(recv, z3.ExprRef):
            try:
                return recv[key]
            except Exception as ex:
                self.raise_if(st, type(ex), TRUE)
        if is_formatted(key) and isinstance(recv, (rdflib.Namespace, type(RDF_ns))):
            return uri_formatted(self, st, formatted(str(recv) + format_of(key), key.arg(0)))
        raise Unsupported("subscript of %r" % (recv,))

    def some_element(self, st, coll):
        """an arbitrary element (the code takes the first one of an unordered collection)"""
        ps = self.as_pieces(st, coll)
        r = None
        inner = [x for k, x in st.ctx if k == "b"]
        vals = [p for p in ps]
        fn = z3.Function("some%d" % next(sym._counter), *([x.sort() for x in inner] + [V])) if inner else None
        x = fn(*inner) if inner else fresh("some")
        st.assume(Or(*[Exists(p.binders, And(*(list(p.conds) + [self.eq(st, p.value, x)]))) for p in ps]))
        return x

    def dict_lookup(self, st, d, key, default, strict):
        if not isinstance(key, (z3.ExprRef, Phi)):
            if key in d: return d[key]
            if strict:
                self.raise_if(st, KeyError, TRUE)
            return default
        if isinstance(key, z3.ExprRef) and is_const(st.known().get(key.get_id(), key)):
            return self.dict_lookup(st, d, concrete_of(st.known().get(key.get_id(), key)), default, strict)
        present = self.contains(st, d, key)
        if strict:
            self.raise_if(st, KeyError, Not(present))
        vals = list(d.values())
        if len(d) <= self.UNROLL:
            alts = [(self.eq(st, key, k), v) for k, v in d.items()]
            if not strict:
                alts.append((Not(present), default))
            return Phi([(c, v) for c, v in alts if not z3.is_false(c)])
        if all(isinstance(v, (list, tuple, set)) for v in vals):
            rows = [(k, x) for k, v in d.items() for x in v]
            t = table(rows)
            b = fresh("e")
            return Bag([Piece([b], [t.has(self.to_V(key), b)], b)])
        v = sym.entry_fun({k: fn_value(v) for k, v in d.items()})(self.to_V(key))
        if strict:
            return v
        return Phi([(present, v), (Not(present), default)])

    def setitem(self, st, recv, key, v):
        if isinstance(recv, dict):
            recv = self.lift(st, recv)
        if isinstance(recv, Cont) and recv.kind in ("dict", "ddset"):
            if recv.kind == "ddset":
                raise Unsupported("assignment to an entry of a defaultdict")
            # overwriting an existing key: recorded as another pair
            self.emit(st, recv.loc, (key, v))
            return
        raise Unsupported("item assignment on %r" % (recv,))

    def extend(self, st, cont, v):
        if isinstance(v, InitV): carried(v)
        items = v
        if cont.kind == "dict":
            pairs = self.pairs(st, v)
            for p in pairs:
                self.emit_piece(st, cont.loc, p)
            return
        for p in self.as_pieces(st, items):
            self.emit_piece(st, cont.loc, p)

    def emit_piece(self, st, loc, p):
        c = st.heap[loc]
        q = Piece(tuple(st.binders_since(c.depth)) + tuple(p.binders), tuple(st.conds_since(c.depth)) + tuple(p.conds), p.value, self.where())
        st.heap[loc] = Content(c.pieces + (q,), c.depth)

    def pairs(self, st, v):
        if isinstance(v, dict):
            l = self.lifted(st, v)
            if l is v:
                return [Piece([], [], kv) for kv in v.items()]
            v = l
        if isinstance(v, Cont) and v.kind in ("dict", "ddset"):
            return list(self.cont_pieces(st, v))
        raise Unsupported("pairs of %r" % (v,))

    # ----- comprehensions -----------------------------------------------------------------------------------
    def comp(self, e, st, elt):
        """pieces of a comprehension"""
        out = []
        gens = e.generators

        def rec(k, s, base):
            if k == len(gens):
                v = elt(s)
                out.append(Piece(s.binders_since(base), s.conds_since(base), v))
                return
            g = gens[k]
            it = self.eval(g.iter, s)
            for item in self.loop_items(s, it):
                s2 = s.clone()
                s2.env["$comp"] = True
                if item[0] == "elem":
                    for c in item[1]: s2.assume(c)
                    value = item[2]
                elif item[0] == "bag":
                    p = item[1]
                    ren = [(b, fresh("c", b.sort())) for b in p.binders]
                    for _, b in ren: s2.ctx.append(("b", b))
                    for c in p.conds: s2.assume(subst(c, ren))
                    value = self.map_value(p.value, lambda x: subst(x, ren))
                else:
                    i = fresh("i", I)
                    s2.ctx.append(("b", i))
                    for c in item[2]: s2.assume(c)
                    for c in item[1].domain(i): s2.assume(c)
                    value = item[1].raw(i)
                self.assign(g.target, value, s2)
                ok = True
                for cond in g.ifs:
                    c = self.fold_known(s2, self.truth(s2, self.eval(cond, s2)))
                    if z3.is_false(c):
                        ok = False
                        break
                    s2.assume(c)
                if ok:
                    h0 = {k_: v_ for k_, v_ in s2.heap.items()}
                    rec(k + 1, s2, base)
        s = st.clone()
        rec(0, s, len(st.ctx))
        return out

    def lazy_of(self, e, st):
        return ()

    def e_ListComp(self, e, st):
        # a one-to-one image of a sequence stays a sequence
        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.eval(e.generators[0].iter, st)
            if isinstance(it, Seq):
                env = dict(st.env)

                def item(i, it=it, g=e.generators[0]):
                    s = st.clone()
                    s.env = dict(env, **{"$comp": True})
                    self.assign(g.target, it.item(i), s)
                    return self.eval(e.elt, s)
                ident = isinstance(e.elt, ast.Name) and isinstance(e.generators[0].target, ast.Name) and e.elt.id == e.generators[0].target.id
                return Seq(it.length, item, it.key if ident else None)
        return self.bag_or_const(st, self.comp(e, st, lambda s: self.eval_elt(e.elt, s)))

    def bag_or_const(self, st, pieces):
        if all(not p.binders and not p.conds for p in pieces) and len(pieces) > 0:
            return [p.value for p in pieces]
        return Bag(pieces)

    def eval_elt(self, elt, s):
        v = self.eval(elt, s)
        if isinstance(v, Cont) and getattr(v, "literal", None) is not None and len(v.literal) == 1 and v.kind == "list":
            return q_one(self.to_V(v.literal[0]))
        if isinstance(v, Cont):
            raise Unsupported("collection of collections")
        return v

    def e_GeneratorExp(self, e, st):
        mark = len(self.reads)
        ps = self.comp(e, st, lambda s: self.eval_elt(e.elt, s))
        lazy = [("graph", "G", (None, None, None))] if "graph" in self.reads[mark:] else []
        return Bag(ps, lazy=lazy)

    def e_SetComp(self, e, st):
        return Bag(self.comp(e, st, lambda s: self.eval_elt(e.elt, s)))

    def e_DictComp(self, e, st):
        ps = self.comp(e, st, lambda s: (self.eval(e.key, s), self.eval(e.value, s)))
        c = self.new_cont(st, "dict")
        for p in ps:
            self.emit_piece(st, c.loc, p)
        return c

    def e_Starred(self, e, st):
        raise Unsupported("starred expression")

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else None
        self.emit(st, st.env["$yield"].loc, v)
        return None

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        for p in self.as_pieces(st, v):
            self.emit_piece(st, st.env["$yield"].loc, p)
        return None

    # ----- attributes and calls -------------------------------------------------------------------------------
    def e_Attribute(self, e, st):
        return self.getattr(st, self.eval(e.value, st), e.attr)

    def getattr(self, st, recv, attr):
        if isinstance(recv, Phi):
            return self.mkphi([(c, self.getattr(st, x, attr)) for c, x in self.live_alts(st, recv)])
        if isinstance(recv, InitV): carried(recv)
        if isinstance(recv, Obj):
            attrs = st.heap[recv.loc]
            if attr in attrs:
                v = attrs[attr]
                self.reads.append((recv.loc, attr))
                if v is UNSET:
                    raise Unsupported("unset attribute %s" % attr)
                return v
            for c in recv.cls.__mro__:
                if attr in c.__dict__:
                    v = c.__dict__[attr]
                    if isinstance(v, types.FunctionType):
                        return BoundFn(recv, v, c)
                    if isinstance(v, staticmethod):
                        return v.__func__
                    if isinstance(v, classmethod):
                        return BoundFn(recv.cls, v.__func__, c)
                    if isinstance(v, property):
                        return self.call_function(st, v.fget, [recv], {}, c)
                    return v
            if attr == "__class__":
                return recv.cls
            mod = recv.cls.__module__
            # name mangling is not applied
            raise_name = "attribute %s of %s" % (attr, recv.cls.__name__)
            self.raise_if(st, AttributeError, TRUE, raise_name)
            raise Unsupported(raise_name)
        if isinstance(recv, Super):
            mro = recv.obj.cls.__mro__
            for c in mro[mro.index(recv.after) + 1:]:
                if attr in c.__dict__:
                    v = c.__dict__[attr]
                    return BoundFn(recv.obj, v, c) if isinstance(v, types.FunctionType) else v
            raise Unsupported("super().%s" % attr)
        if isinstance(recv, z3.ExprRef):
            if recv.sort() == V:
                if attr in ("value", "datatype", "language"):
                    if is_const(recv):
                        return getattr(concrete_of(recv), attr)
                    self.raise_if(st, AttributeError, Not(isLit(recv)), "." + attr)
                    return {"value": f_value, "datatype": f_datatype, "language": f_lang}[attr](recv)
                return Method(recv, attr)
            return Method(recv, attr)
        if isinstance(recv, (GraphRef, Cont, Bag, Seq, DictSlot, LenOf, Closure)):
            return Method(recv, attr)
        if isinstance(recv, Opaque):
            if attr in recv.attrs:
                return recv.attrs[attr]
            return Method(recv, attr)
        if isinstance(recv, (list, dict, set)) :
            return Method(recv, attr)
        try:
            return getattr(recv, attr)
        except AttributeError:
            self.raise_if(st, AttributeError, TRUE, "%s.%s" % (recv, attr))
        raise Dead()

    def setattr(self, st, recv, attr, v):
        if isinstance(recv, Obj):
            d = dict(st.heap[recv.loc])
            d[attr] = v
            st.heap[recv.loc] = d
            return
        if isinstance(recv, GraphRef):
            if attr == "default_union":
                st.heap["default_union"] = {"v": v}
                return
        raise Unsupported("attribute assignment on %r" % (recv,))

    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return Super(self.first_arg(st), self.frames[-1].cls)
        f = self.eval(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                if isinstance(v, Cont) and getattr(v, "literal", None) is not None:
                    v = v.literal
                if not isinstance(v, (tuple, list)):
                    raise Unsupported("starred argument")
                args += list(v)
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unsupported("** argument")
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        return self.call(st, f, args, kwargs)

    def first_arg(self, st):
        fr = self.frames[-1]
        node = fr.fn.node if isinstance(fr.fn, Closure) else func_ast(fr.fn)
        return st.env[node.args.args[0].arg]

    def call(self, st, f, args, kwargs):
        if isinstance(f, Phi):
            base = len(st.ctx)
            outs = []
            for c, x in f.alts:
                s = st.clone()
                s.assume(c)
                if z3.is_false(And(*s.conds_since(0))):
                    continue
                try:
                    v = self.call(s, x, args, kwargs)
                except Dead:
                    continue
                s.env = dict(s.env)
                s.env["$v"] = v
                outs.append(s)
            if not outs:
                raise Dead()
            m = self.merge(base, outs)
            v = m.env.pop("$v")
            self.become(st, m)
            return v
        if isinstance(f, InitV): carried(f)
        if isinstance(f, BoundFn):
            return self.call_function(st, f.fn, [f.recv] + list(args), kwargs, f.cls)
        if isinstance(f, Closure):
            return self.call_function(st, f, args, kwargs)
        if isinstance(f, types.MethodType) and in_package(f.__func__):
            return self.call_function(st, f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, types.FunctionType) and in_package(f):
            cls = None
            if "." in f.__qualname__ and "<locals>" not in f.__qualname__:
                mod = sys_module(f.__module__)
                cls = getattr(mod, f.__qualname__.split(".")[0], None)
            return self.call_function(st, f, args, kwargs, cls)
        if isinstance(f, type) and in_package(f):
            return self.instantiate(st, f, args, kwargs)
        if isinstance(f, Method):
            from . import lib
            return lib.call_method(self, st, f.recv, f.name, args, kwargs)
        if isinstance(f, z3.ExprRef) and f.sort() == V:
            # a registered conversion function: may raise ValueError, and only that
            x = self.to_V(args[0])
            self.raise_if(st, ValueError, f_raises(f, x))
            return f_call(f, x)
        if isinstance(f, Opaque) and "call" in f.attrs:
            return f.attrs["call"](self, st, args, kwargs)
        from . import lib
        return lib.call_builtin(self, st, f, args, kwargs)

    def instantiate(self, st, cls, args, kwargs):
        o = self.new_obj(st, cls, {})
        for c in cls.__mro__:
            if "__init__" in c.__dict__ and isinstance(c.__dict__["__init__"], types.FunctionType):
                self.call_function(st, c.__dict__["__init__"], [o] + list(args), kwargs, c)
                break
        return o


class BoundFn:
    def __init__(self, recv, fn, cls):
        self.recv, self.fn, self.cls = recv, fn, cls


class LenOf:
    """len() of an unordered collection"""
    def __init__(self, coll):
        self.coll = coll


class DictSlot:
    """d[k] of a symbolic dictionary"""
    def __init__(self, cont, key):
        self.cont, self.key = cont, key

    @staticmethod
    def get(ex, st, cont, key):
        if cont.kind == "ddset":
            return DictSlot(cont, key)
        ps = ex.cont_pieces(st, cont)
        present = ex.contains(st, cont, key)
        ex.raise_if(st, KeyError, Not(present))
        # functional dictionaries whose value is a function of the key
        alts = []
        ground = [p for p in ps if not p.binders and not p.conds and not isinstance(p.value[0], (z3.ExprRef, tuple, Phi))]
        if len(ground) > ex.UNROLL and ps[:len(ground)] == ground and isinstance(key, z3.ExprRef):
            ps = ps[len(ground):]
            d = {}
            for p in ground:
                v = p.value[1]
                if isinstance(v, Cont) and getattr(v, "literal", None) is not None and not any(isinstance(x, z3.ExprRef) for x in v.literal):
                    v = tuple(v.literal)
                d[p.value[0]] = v
            kk = ex.to_V(key)
            kk = st.known().get(kk.get_id(), kk)
            if is_const(kk) and concrete_of(kk) in d:
                alts.append((TRUE, fn_value(d[concrete_of(kk)])))
            elif not is_const(kk):
                if all(isinstance(v, (list, tuple, set)) for v in d.values()):
                    t = table([(k, x) for k, v in d.items() for x in v])
                    b = fresh("e")
                    gv = Bag([Piece([b], [t.has(kk, b)], b)])
                else:
                    if any(isinstance(v, (Cont, list, tuple, set, Bag)) for v in d.values()):
                        raise Unsupported("dictionary lookup")
                    gv = sym.entry_fun({k: fn_value(v) for k, v in d.items()})(kk)
                alts.append((table(list(d)).has(kk), gv))
        for p in ps:
            k, v = p.value
            if isinstance(k, z3.ExprRef) and len(p.binders) >= 1 and any(k.eq(b) for b in p.binders):
                kk = ex.to_V(key)
                sub = [(k, kk)]
                rest = [b for b in p.binders if not b.eq(k)]
                v2 = ex.map_value(fn_value(v), lambda e: subst(e, sub))
                if ex.mentions(v2, rest):
                    raise Unsupported("dictionary value")
                alts.append((Exists(rest, And(*[subst(c, sub) for c in p.conds])), v2))
            elif not p.binders:
                alts.append((And(*(list(p.conds) + [ex.eq(st, k, key)])), fn_value(v)))
            elif isinstance(k, z3.ExprRef):
                # keys are a function of the binders: a choice of the binders for each key (unique, if the keys are)
                x = z3.Const("key@%d" % next(sym._counter), V)
                ws = [(b, z3.Function("w%d" % next(sym._counter), V, b.sort())(x)) for b in p.binders]
                cond = lambda sub: And(*([subst(c, sub) for c in p.conds] + [Eq(subst(ex.to_V(k), sub), x)]))
                ex.facts.append(z3.ForAll([x], z3.Implies(Exists(p.binders, cond([])), cond(ws)), patterns=[ws[0][1]]))
                kk = ex.to_V(key)
                ws = [(b, subst(w, [(x, kk)])) for b, w in ws]
                if isinstance(v, Cont):
                    v2 = Bag([Piece(q.binders, [subst(c, ws) for c in q.conds], ex.map_value(q.value, lambda e: subst(e, ws))) for q in ex.cont_pieces(st, v)])
                else:
                    v2 = ex.map_value(v, lambda e: subst(e, ws))
                alts.append((subst(Exists(p.binders, cond([])), [(x, kk)]), v2))
            else:
                raise Unsupported("dictionary lookup")
        # later entries win
        if not alts: raise Dead()
        return ex.mkphi(list(reversed(alts))) if len(alts) > 1 else alts[0][1]

    def pieces(self, ex, st):
        out = []
        for p in ex.cont_pieces(st, self.cont):
            k, v = p.value
            ren = [(b, fresh("d", b.sort())) for b in p.binders]
            k2, v2 = ex.map_value(k, lambda e: subst(e, ren)), ex.map_value(v, lambda e: subst(e, ren))
            out.append(Piece([r for _, r in ren], [subst(c, ren) for c in p.conds] + [ex.eq(st, k2, self.key)], v2))
        return out

    def update(self, ex, st, v):
        for p in ex.as_pieces(st, v):
            ex.emit_piece(st, self.cont.loc, Piece(p.binders, p.conds, (self.key, p.value)))


def fn_value(v):
    """functions kept in a table are called through their contract (may raise ValueError, the result is a function of the argument)"""
    return const(v) if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type)) else v


_dict_names = {}


def dict_name(d):
    for mod in (load.DatatypeHandling, load.XsdDatatypes, load.RestrictedDatatype):
        for n, v in vars(mod).items():
            if v is d:
                return n
    return _dict_names.setdefault(id(d), "dict%d" % len(_dict_names))


def sys_module(name):
    import sys
    return sys.modules[name]


def formatted(fmt, i):
    """the string fmt % i of an integer i: a function of i"""
    return z3.Function("fmt:" + fmt, I, V)(i)


def is_formatted(x):
    return isinstance(x, z3.ExprRef) and z3.is_app(x) and x.num_args() == 1 and x.decl().name().startswith("fmt:")


def format_of(x):
    return x.decl().name()[4:]


def uri_formatted(ex, st, x):
    t = z3.Function("uri:" + format_of(x), I, V)(x.arg(0))
    st.assume(isURI(t))
    return t


RDF_ns = rdflib.namespace.RDF


def fresh_str(ex):
    return fresh("msg")


def own_nodes(fn):
    """nodes of the function itself, not of nested functions"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


_old_as_pieces = Executor.as_pieces


def _as_pieces(self, st, v):
    if isinstance(v, DictSlot):
        return v.pieces(self, st)
    if isinstance(v, InitV):
        carried(v)
    if isinstance(v, AccDelta):
        raise CarriedRead(v.name)
    if isinstance(v, GraphRef):
        return list(self.g_triples(st, v.part, (None, None, None)).pieces)
    return _old_as_pieces(self, st, v)


Interp.as_pieces = _as_pieces
