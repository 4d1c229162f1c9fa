"""C15: _lang_range_check against extended filtering of RFC 4647 (section 3.3.2), for ranges and tags of any length."""
from .pure import *  # noqa: F401,F403
from .pure import _Break, _Continue
from . import load, proofs

Tok = z3.DeclareSort("Tok")
I, B = z3.IntSort(), z3.BoolSort()
f_fold, f_strip = z3.Function("fold", Tok, Tok), z3.Function("strip", Tok, Tok)
f_upper = z3.Function("upper", Tok, Tok)
f_tok, f_ntok, f_len = z3.Function("tok", Tok, I, Tok), z3.Function("ntok", Tok, I), z3.Function("toklen", Tok, I)
RANGE, LANG = z3.Const("range", Tok), z3.Const("lang", Tok)
_consts = {}


def tconst(s):
    if s not in _consts: _consts[s] = z3.Const("str_%s" % (s or "empty"), Tok)
    return _consts[s]


def fold(e):
    if e.decl().eq(f_fold): return e
    for s, c in _consts.items():
        if c.eq(e): return tconst(s.lower())
    return f_fold(e)


def strip(e):
    if e.decl().eq(f_strip): return e
    if e.decl().eq(f_fold): return fold(strip(e.arg(0)))
    return f_strip(e)


def tok(e, i):
    if e.decl().eq(f_fold): return fold(f_tok(e.arg(0), i))
    return f_tok(e, i)


def ntok(e): return f_ntok(e.arg(0) if e.decl().eq(f_fold) else e)
def tlen(e): return f_len(e.arg(0) if e.decl().eq(f_fold) else e)


class PStr(SV):
    """a string: whole range or tag, or a subtag of one"""
    def __init__(self, e): self.e = e

    def getattr(self, w, name):
        if name in ("lower", "casefold"): return Fn(name, lambda w, a, k: PStr(fold(self.e)))
        if name == "upper": return Fn(name, lambda w, a, k: PStr(f_upper(self.e)))
        if name == "strip": return Fn(name, lambda w, a, k: PStr(strip(self.e)) if not a else self.no())
        if name == "split": return Fn(name, lambda w, a, k: TokList(self.e) if a == ["-"] and not k else self.no())
        if name == "__len__": return Fn(name, lambda w, a, k: self.length(w))
        raise Unsupported("string method %s" % name)

    def no(self): raise Unsupported("string method arguments")

    def eq(self, w, o):
        if isinstance(o, PStr): return self.e == o.e
        if isinstance(o, str): return self.e == tconst(o)
        return False

    def length(self, w): return tlen(self.e)
    def truth(self, w): return tlen(self.e) > 0
    def isinst(self, w, cls): return issubclass(str, cls)
    def text(self, w): return self


class TokList(SV):
    """the subtags of a string from number lo on"""
    def __init__(self, e, lo=0): self.e, self.lo = e, lo

    def length(self, w):
        n = ntok(self.e)
        if isinstance(self.lo, int) and self.lo == 0: return n
        return z3.If(n >= self.lo, n - self.lo, 0)

    def truth(self, w): return True if isinstance(self.lo, int) and self.lo == 0 else self.length(w) > 0

    def getitem(self, w, k):
        if isinstance(k, slice):
            if k.step not in (None, 1) or k.stop is not None or (isinstance(k.start, int) and k.start < 0): raise Unsupported("slice of the subtags")
            a = 0 if k.start is None else k.start
            if isz(a) and not w.decide(a >= 0): raise Unsupported("slice of the subtags")
            return TokList(self.e, self.lo + a)
        n = self.length(w)
        k = lift(k, n)
        if w.decide(z3.And(k >= 0, k < n)): return PStr(tok(self.e, z3.simplify(k + self.lo)))
        if w.decide(z3.And(k < 0, k + n >= 0)): return PStr(tok(self.e, z3.simplify(k + n + self.lo)))
        raise PyRaise(IndexError, ("list index out of range",))

    def loop(self, w, fr, node):
        h = w.hooks.get("for")
        return h(w, fr, node, self.lo, ntok(self.e), lambda i: PStr(tok(self.e, i))) if h else False

    def comp(self, w, fr, node, kind):
        # [f(x) for x in subtags], f = folding
        if not (isinstance(self.lo, int) and self.lo == 0): return NotImplemented
        g = node.generators[0]
        if g.ifs or kind == "set": return NotImplemented
        f2 = Frame(fr.g, fr, {}, fr.owner, set())
        k = z3.Int("anyindex")
        w.assign_comp(f2, g.target, PStr(f_tok(self.e, k)))
        r = w.ev(f2, node.elt)
        if isinstance(r, PStr) and r.e.eq(f_tok(self.e, k)): return self
        if isinstance(r, PStr) and r.e.eq(f_fold(f_tok(self.e, k))): return TokList(fold(self.e))
        return NotImplemented


R, L = ntok(strip(RANGE)), ntok(strip(LANG))
M = z3.Function("rfc4647", I, I, B)
STAR = tconst("*")
def r_(i): return fold(tok(strip(RANGE), i))
def l_(j): return fold(tok(strip(LANG), j))


def unfold(i, j):
    """the definition of M at (i, j): subtags of the range from i on match those of the tag from j on"""
    return M(i, j) == z3.If(i >= R, True, z3.If(r_(i) == STAR, M(i + 1, j), z3.If(j >= L, False, z3.If(r_(i) == l_(j), M(i + 1, j + 1), z3.If(tlen(l_(j)) == 1, False, M(i, j + 1))))))


def theory():
    cs = list(_consts.items())
    out = [R >= 1, L >= 1]
    if len(cs) > 1: out.append(z3.Distinct(*[c for s, c in cs]))
    t, k = z3.Const("t", Tok), z3.Int("k")
    out += [f_len(c) == len(s) for s, c in cs]
    out.append(z3.ForAll([t], f_len(t) >= 0, patterns=[f_len(t)]))
    return out


def candidates(w, fr, names):
    xs = [n for n in sorted(names) if isinstance(fr.vars.get(n), int) and not isinstance(fr.vars.get(n), bool)]
    return [(x, y) for x in xs for y in xs if x != y]


def build(pick):
    def b(w):
        fn = load.RestrictedDatatype._lang_range_check
        w.seen = 0

        def run(w, fr, node, hidden, step):
            """one loop: hidden is the name and the first value of its own counter, if it has one; step(fr) executes one iteration
            and says whether there was one"""
            names = assigned([node])
            val = lambda n: w.hidden[n] if n in w.hidden else fr.vars[n]
            if hidden is not None: w.hidden[hidden[0]] = lift(hidden[1], R)
            if w.loops:
                # an inner loop keeps the relation of the outer one
                x, y, a, b = w.loops[-1]
            else:
                xs = [n for n in sorted(names) if isinstance(fr.vars.get(n), int) and not isinstance(fr.vars.get(n), bool)] + ([hidden[0]] if hidden else [])
                cs = [(x, y) for x in xs for y in xs if x != y]
                if not cs: raise Unsupported("loop without two counters")
                w.seen = max(w.seen, len(cs))
                if pick >= len(cs): raise Kill()
                x, y = cs[pick]
                a, b = 1 - val(x), 1 - val(y)

            X0, Y0 = lift(val(x), R), lift(val(y), R)

            def inv(X, Y): return z3.And(M(1, 1) == M(X + a, Y + b), X >= X0, Y >= Y0, X + a >= 1, X + a <= R, Y + b >= 1, Y + b <= L)
            w.prove("loop invariant at entry", inv(lift(val(x), R), lift(val(y), R)))
            for n in names:
                if n in fr.vars and (n in (x, y) or (isinstance(fr.vars[n], int) and not isinstance(fr.vars[n], bool)) or (isz(fr.vars[n]) and fr.vars[n].sort() == I)): fr.vars[n] = w.fresh(n, I)
                elif n in fr.vars and isinstance(fr.vars[n], PStr): fr.vars[n] = PStr(w.fresh(n, Tok))
                elif n in fr.vars: raise Unsupported("loop assigns %s" % n)
            if hidden is not None: w.hidden[hidden[0]] = w.fresh("counter", I)
            X, Y = lift(val(x), R), lift(val(y), R)
            w.assume(inv(X, Y))
            w.assume(unfold(X + a, Y + b))
            w.loops.append((x, y, a, b))
            try:
                more = step(fr)
            except _Break:
                w.loops.pop()
                return True
            except _Continue:
                more = True
            if not more:
                w.loops.pop()
                w.block(fr, node.orelse)
                return True
            if hidden is not None: w.hidden[hidden[0]] = w.hidden[hidden[0]] + 1
            X2, Y2 = lift(val(x), R), lift(val(y), R)
            w.prove("loop invariant preserved", inv(X2, Y2))
            w.prove("loop variant decreases and is bounded", z3.And(R - X2 + L - Y2 < R - X + L - Y, R - (X + a) + L - (Y + b) >= 0))
            raise Kill()

        def hook(w, fr, node):
            def step(fr):
                if not w.truth(w.ev(fr, node.test)): return False
                w.block(fr, node.body)
                return True
            return run(w, fr, node, None, step)

        def forhook(w, fr, node, lo, n, item):
            if not w.decide(lift(lo, n) <= n): return True
            name = "$for%d" % len(w.hidden)

            def step(fr):
                i = w.hidden[name]
                w.assume(z3.And(i >= lo, i <= n))
                if not w.decide(i < n): return False
                w.assign(fr, node.target, item(i))
                w.block(fr, node.body)
                return True
            return run(w, fr, node, (name, lo), step)
        w.hooks["for"] = forhook
        w.hooks["while"] = hook

        def body(w):
            w.loops, w.hidden = [], {}
            w.base = theory()
            w.assume(unfold(z3.IntVal(1), z3.IntVal(1)))
            r = w.call(fn, [PStr(RANGE), PStr(LANG)], {})
            got = w.truth(r)
            w.prove("result is what extended filtering gives", z3.BoolVal(got) == z3.And(z3.Or(r_(0) == STAR, r_(0) == l_(0)), M(1, 1)))
        tconst("*")
        w.explore(body)
    return b


def lang(led):
    from .pure import run_world
    jobs = [run_world("_lang_range_check[%d]" % k, build(k)) for k in range(2)]
    outs = []
    for j in jobs:
        l2 = type(led)()
        pure_jobs(l2, [j])
        outs.append(l2)
    # one choice of the two counters has to do; a choice that does not exist proves nothing
    good = [l2 for l2 in outs if l2.results and not l2.failed() and any("preserved" in r.name for r in l2.results) and any("result is" in r.name for r in l2.results)]
    l2 = (good or outs)[0]
    led.results += l2.results
    led.functions.update(l2.functions)
    led.assumptions.add("str.lower, strip and split('-') on ASCII tags: folding neither makes nor removes hyphens and keeps lengths")
    led.assumptions.add("both arguments are strings")
    if not good and not l2.failed(): led.fail("_lang_range_check", "no loop with an invariant was found")
