"""Loop invariants for values that are carried from one iteration to the next: candidates are built from the shape of
the value at loop entry, and each one used yields proof obligations (it holds at entry, every iteration preserves it)."""
from .interp import *  # noqa: F401,F403


class FoldBag:
    """value after i iterations as a set of elements: pieces(i)"""
    def __init__(self, mk, kind, entry, base):
        self.mk, self.kind, self.entry, self.base = mk, kind, entry, base

    def at(self, ex, st, idx):
        return Bag(self.mk(ex, idx))

    def check(self, ex, base, ends, seq, bs, depth, name):
        label = "loop invariant of %s (%s)" % (name, ex.frames[-1].name if ex.frames else "?")
        ctx0 = [c for k, c in base.ctx if k == "c"]
        v = shape_of(self.mk(ex, z3.IntVal(0))[0].value)

        def member(pieces, st):
            return Or(*[Exists(p.binders, And(*(list(p.conds) + [ex.eq(None, p.value, v)]))) for p in pieces])
        ex.obligations.append((label + ": holds at entry", ctx0, member(ex.as_pieces(base, self.entry), base) == member(self.mk(ex, z3.IntVal(0)), base), self.kind))
        i = z3.simplify(bs[0] - seq.off)
        for s in ends:
            end = s.env.get(name)
            hyps = [c for k, c in s.ctx if k == "c"]
            if isinstance(end, Phi):
                alts = end.alts
            else:
                alts = [(TRUE, end)]
            for c, e in alts:
                if isinstance(e, AccDelta) or isinstance(e, InitV):
                    raise Unsupported("value of %s carried between iterations" % name)
                ex.obligations.append((label + ": preserved", hyps + [c],
                                       member(ex.as_pieces(s, e), s) == member(self.mk(ex, z3.simplify(i + 1)), s), self.kind))


def shape_of(v):
    if isinstance(v, tuple):
        return tuple(shape_of(x) for x in v)
    if isinstance(v, z3.ExprRef):
        return fresh("v", v.sort())
    return fresh("v")


class FoldInt:
    def __init__(self, v0, step, entry):
        self.v0, self.step = v0, step

    def at(self, ex, st, idx):
        return z3.simplify(self.v0 + self.step * idx)

    def check(self, ex, base, ends, seq, bs, depth, name):
        for s in ends:
            end = ex.to_z3(s.env.get(name))
            if end is None or end.sort() != I:
                raise Unsupported("value of %s carried between iterations" % name)
            ex.obligations.append(("loop invariant of %s" % name, [c for k, c in s.ctx if k == "c"],
                                   end == self.v0 + self.step * (bs[0] - seq.off + 1), "int"))


def fold_hook(ex, base, name, entry, seq, bs):
    if seq is None or len(bs) != 1:
        raise Unsupported("value of %s carried between iterations" % name)
    if isinstance(entry, InitV) or isinstance(entry, AccDelta):
        raise CarriedRead(entry.name)
    z = ex.to_z3(entry) if not isinstance(entry, (Phi, tuple, str)) and entry is not None else None
    if z is not None and z.sort() == I:
        return FoldInt(z, 1, entry)
    try:
        pieces = ex.as_pieces(base, entry)
    except CarriedRead:
        raise Unsupported("value of %s carried between iterations" % name)
    if seq.key is None or not pieces:
        raise Unsupported("value of %s carried between iterations" % name)
    l, off = seq.key

    def isq(v):
        return isinstance(v, z3.ExprRef) and v.sort() == Q
    if all(isq(p.value) for p in pieces) and len(pieces) == 1:
        p = pieces[0]
        if z3.is_app(p.value) and p.value.decl().eq(q_one) and len(p.binders) == 1 and p.value.arg(0).eq(p.binders[0]):
            zi = p.binders[0]

            def mk(ex_, idx):
                q, k = fresh("q", Q), fresh("k", I)
                conds = [subst(c, [(zi, q_at(q, k)), (litem(l, z3.IntVal(0)), litem(l, k))]) for c in p.conds]
                n = z3.simplify(off + idx)
                return [Piece([q], [Eq(q_len(q), n), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), And(*conds)), patterns=[q_at(q, k)])], q)]
            return FoldBag(mk, "keys", entry, base)
    vals = [p.value for p in pieces]
    if all(isinstance(v, tuple) and len(v) >= 1 and isinstance(v[-1], z3.ExprRef) and v[-1].sort() == V for v in vals) or \
            all(isinstance(v, z3.ExprRef) and v.sort() == V for v in vals):
        def mk(ex_, idx):
            out = []
            for p in pieces:
                y = fresh("y")
                last = p.value[-1] if isinstance(p.value, tuple) else p.value
                val = (p.value[:-1] + (y,)) if isinstance(p.value, tuple) else y
                out.append(Piece(tuple(p.binders) + (y,), tuple(p.conds) + (Reach(l, off, z3.simplify(off + idx), last, y),), val))
            return out
        return FoldBag(mk, "path", entry, base)
    raise Unsupported("value of %s carried between iterations" % name)


def reach_axioms(U):
    l, x, y, m = [z3.Const(n, V) for n in ("rl", "rx", "ry", "rm")]
    a, b = z3.Const("ra", I), z3.Const("rb", I)
    R = Reach
    return [z3.ForAll([l, a, x, y], R(l, a, a, x, y) == (x == y), patterns=[R(l, a, a, x, y)]),
            z3.ForAll([l, a, b, x, m, y], z3.Implies(z3.And(b >= a, R(l, a, b, x, m), U(m, litem(l, b), y)), R(l, a, b + 1, x, y)),
                      patterns=[z3.MultiPattern(R(l, a, b, x, m), U(m, litem(l, b), y))])]


def reach_unfold(U, l, a, b, x, y):
    """ground instance: a path to b > a ends with a step"""
    m = fresh("m")
    return z3.Implies(z3.And(b > a, Reach(l, a, b, x, y)), z3.Exists([m], z3.And(Reach(l, a, b - 1, x, m), U(m, litem(l, b - 1), y))))


def reach_unfold_axiom(U):
    l, x, y, m = [z3.Const(n, V) for n in ("rl", "rx", "ry", "rm")]
    a, b = z3.Const("ra", I), z3.Const("rb", I)
    step = z3.Function("reach_mid", V, I, I, V, V, V)
    mm = step(l, a, b, x, y)
    return z3.ForAll([l, a, b, x, y], z3.Implies(z3.And(b > a, Reach(l, a, b, x, y)), z3.And(Reach(l, a, b - 1, x, mm), U(mm, litem(l, b - 1), y))),
                     patterns=[Reach(l, a, b, x, y)])


def q_axioms():
    q, q2 = z3.Const("qq", Q), z3.Const("qq2", Q)
    v = z3.Const("qv", V)
    k = z3.Const("qk", I)
    return [z3.ForAll([v], z3.And(q_len(q_one(v)) == 1, q_at(q_one(v), 0) == v), patterns=[q_one(v)]),
            z3.ForAll([q], q_len(q) >= 0, patterns=[q_len(q)]),
            z3.ForAll([q], z3.Implies(q_len(q) == 1, q == q_one(q_at(q, 0))), patterns=[q_len(q)]),
            z3.ForAll([q, v], z3.And(q_len(q_snoc(q, v)) == q_len(q) + 1, q_at(q_snoc(q, v), q_len(q)) == v), patterns=[q_snoc(q, v)]),
            z3.ForAll([q, v, k], z3.Implies(z3.And(k >= 0, k < q_len(q)), q_at(q_snoc(q, v), k) == q_at(q, k)), patterns=[q_at(q_snoc(q, v), k)]),
            z3.ForAll([q, v, k], z3.Implies(z3.And(k >= 0, k < q_len(q)), q_at(q_snoc(q, v), k) == q_at(q, k)), patterns=[z3.MultiPattern(q_snoc(q, v), q_at(q, k))]),
            z3.ForAll([q], z3.Implies(q_len(q) > 1, z3.And(q == q_snoc(q_init(q), q_at(q, q_len(q) - 1)), q_len(q_init(q)) == q_len(q) - 1)), patterns=[q_len(q)])]
