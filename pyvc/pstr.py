"""Strings for the executor of pure.py: contracts for str methods, re, int, float, Decimal, unhexlify and the other library
functions that the lexical conversions call.  Strings are z3 strings; what a contract does not say is left open."""
import base64
import binascii
import datetime
import re
import re._parser as sre_parse
import time
import urllib.parse
import decimal
import fractions
import z3
from decimal import Decimal
from .exec import Unsupported
from .pure import SV, Text, Fn, Meth, PyRaise, isz, lift, symbolic

S = z3.StringSort()
DIGIT = z3.Range("0", "9")
SIGN = z3.Option(z3.Union(z3.Re("+"), z3.Re("-")))
PLAIN = z3.Star(z3.Range("!", "~"))                  # printable ASCII without blanks
INTLEX = z3.Concat(SIGN, z3.Plus(DIGIT))
MANT = z3.Concat(SIGN, z3.Union(z3.Concat(z3.Plus(DIGIT), z3.Option(z3.Concat(z3.Re("."), z3.Star(DIGIT)))), z3.Concat(z3.Re("."), z3.Plus(DIGIT))))
EXP = z3.Concat(z3.Union(z3.Re("e"), z3.Re("E")), SIGN, z3.Loop(DIGIT, 1, 17))
NUMLEX = z3.Concat(MANT, z3.Option(EXP))
HEX = z3.Union(z3.Range("0", "9"), z3.Range("a", "f"), z3.Range("A", "F"))
HEXLEX = z3.Star(HEX)
den_int = z3.Function("denoted_integer", S, z3.IntSort())
den_num = z3.Function("denoted_number", S, z3.RealSort())
den_hex = z3.Function("denoted_octets", S, z3.IntSort())


class Octets(SV):
    def __init__(self, term): self.term = term
    def truth(self, w): return w.fresh("nonempty", z3.BoolSort())


class Opaque(SV):
    """a value about which nothing is known; operations may fail in any way"""
    def __init__(self, raises=()): self.raises = tuple(raises)

    def step(self, w):
        k = w.choose(1 + len(self.raises))
        if k: raise PyRaise(self.raises[k - 1])
        return Opaque(self.raises)

    def getattr(self, w, name): return Fn(name, lambda w, a, kw: self.step(w))
    def call(self, w, args, kw): return self.step(w)
    def truth(self, w): return w.fresh("truth", z3.BoolSort())
    def eq(self, w, other): return True if self is other else w.fresh("eq", z3.BoolSort())
    def isinst(self, w, cls): return w.fresh("isinstance", z3.BoolSort())


class Dec(SV):
    """a Decimal: finite with the exact value r, or special (infinite, NaN) when r is None"""
    def __init__(self, r=None): self.r = r

    def getattr(self, w, name):
        if name in ("is_finite",): return Fn(name, lambda w, a, k: self.r is not None)
        if name in ("is_nan", "is_infinite", "is_snan", "is_qnan"): return Fn(name, lambda w, a, k: False if self.r is not None else w.fresh(name, z3.BoolSort()))
        if name == "is_zero": return Fn(name, lambda w, a, k: self.r == 0 if self.r is not None else False)
        if name == "is_signed": return Fn(name, lambda w, a, k: w.fresh(name, z3.BoolSort()) if self.r is None else z3.Or(self.r < 0, z3.And(self.r == 0, w.fresh(name, z3.BoolSort()))))
        if name == "copy_abs": return Fn(name, lambda w, a, k: self.absolute(w, False))
        if name == "copy_negate": return Fn(name, lambda w, a, k: Dec(None if self.r is None else -self.r))
        if name == "__abs__": return Fn(name, lambda w, a, k: self.absolute(w, True))
        raise Unsupported("Decimal.%s" % name)

    def absolute(self, w, rounded):
        if self.r is None:
            if rounded and w.choose(2): raise PyRaise(decimal.InvalidOperation)
            return Dec()
        a = z3.If(self.r >= 0, self.r, -self.r)
        if not rounded: return Dec(a)
        if w.choose(2):                      # the context rounds to 28 digits and limits the exponent
            w.assume(a >= z3.RealVal(10) ** 400)
            raise PyRaise(decimal.Overflow)
        x = w.fresh("rounded", z3.RealSort())
        w.assume(z3.And(x >= 0, x - a <= a / z3.RealVal(10 ** 27), a - x <= a / z3.RealVal(10 ** 27), (x == 0) == (a == 0)))
        return Dec(x)

    def number(self, o):
        if isinstance(o, Dec): return o.r
        if isinstance(o, bool) or not isinstance(o, (int, Decimal, float)): return NotImplemented
        if isinstance(o, (Decimal, float)) and not Decimal(o).is_finite(): return None
        return lift(o, z3.RealVal(0))

    def eq(self, w, o):
        n = self.number(o)
        if n is NotImplemented: return False
        if self.r is None or n is None:
            if w.choose(2): raise PyRaise(decimal.InvalidOperation)      # a signalling NaN
            return w.fresh("equal", z3.BoolSort()) if self.r is None and n is None else False
        return self.r == n

    def cmp(self, w, op, o, swapped):
        from .pure import CMP
        n = self.number(o)
        if n is NotImplemented: raise PyRaise(TypeError)
        if self.r is None or n is None:
            if w.choose(2): raise PyRaise(decimal.InvalidOperation)
            return w.fresh("compared", z3.BoolSort())
        return CMP[type(op)](n, self.r) if swapped else CMP[type(op)](self.r, n)

    def truth(self, w): return self.r != 0 if self.r is not None else True
    def isinst(self, w, cls): return issubclass(Decimal, cls)


def fresh_str(w, name): return w.fresh(name, S)


def same_if(w, s, cond, name):
    t = fresh_str(w, name)
    w.assume(z3.Implies(cond, t == s))
    return t


class StrList(SV):
    """an unknown list of strings"""
    def truth(self, w): return w.fresh("nonempty", z3.BoolSort())

    def length(self, w):
        n = w.fresh("len", z3.IntSort())
        w.assume(n >= 0)
        return n

    def getitem(self, w, k):
        if w.choose(2): raise PyRaise(IndexError)
        return fresh_str(w, "part")


class Parts(StrList):
    """a list of at least n strings of which the first are known"""
    def __init__(self, known, n): self.known, self.n = known, n
    def truth(self, w): return True

    def length(self, w):
        n = w.fresh("len", z3.IntSort())
        w.assume(n >= self.n)
        return n

    def getitem(self, w, k):
        if not isinstance(k, int): raise Unsupported("index into a split string")
        if 0 <= k < len(self.known): return self.known[k]
        if k >= self.n or -k > self.n: return StrList.getitem(self, w, k)
        return fresh_str(w, "part")

    def iterate(self, w):
        """unpacking: with fewer or more parts than targets a ValueError"""
        n = self.n + w.choose(2)
        return self.known + [fresh_str(w, "part") for _ in range(n - len(self.known))]

    def loop(self, w, fr, node): raise Unsupported("loop over a split string")
    def comp(self, w, fr, node, kind): raise Unsupported("comprehension over a split string")


def flat(s): return [y for c in s.children() for y in flat(c)] if z3.is_app_of(s, z3.Z3_OP_SEQ_CONCAT) else [s]
def cat(ps): return z3.Concat(*ps) if len(ps) > 1 else ps[0] if ps else z3.StringVal("")


def split_concat(w, args, sep, x):
    """a concatenation is split piece by piece"""
    parts = [[]]
    for k, c in enumerate(args):
        if z3.is_string_value(c):
            ps = c.as_string().split(sep)
            for j, t in enumerate(ps):
                if j: parts.append([])
                if t: parts[-1].append(z3.StringVal(t))
        elif w.decide(z3.Contains(c, x)):
            return Parts([cat(p) for p in parts[:-1]], len(parts) + 1 + sum(y.as_string().count(sep) for y in args[k + 1:] if z3.is_string_value(y)))
        else: parts[-1].append(c)
    return [cat(p) for p in parts]


class Ratio(SV):
    """a Fraction"""
    def __init__(self, r): self.r = r
    def isinst(self, w, cls): return issubclass(fractions.Fraction, cls)
    def truth(self, w): return self.r != 0


def zstr_attr(w, s, name):
    if not (isz(s) and s.sort() == S): return None

    def one(a, d=None):
        x = a[0] if a else d
        x = lift(x, s) if x is not None and not isinstance(x, SV) else None
        if x is None: raise Unsupported("str.%s" % name)
        return x

    def m(f): return Fn("str." + name, f)
    if name in ("find", "index"):
        def find(w, a, k):
            if len(a) > 1: raise Unsupported("find with a position")
            i = z3.IndexOf(s, one(a), z3.IntVal(0))
            if name == "index" and w.decide(i < 0): raise PyRaise(ValueError)
            return i
        return m(find)
    if name in ("rfind", "rindex"):
        def rfind(w, a, k):
            i, x = w.fresh("rfind", z3.IntSort()), one(a)
            w.assume(z3.And(i >= -1, i <= z3.Length(s), (i == -1) == z3.Not(z3.Contains(s, x))))
            if name == "rindex" and w.decide(i < 0): raise PyRaise(ValueError)
            return i
        return m(rfind)
    if name in ("startswith", "endswith"):
        f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        return m(lambda w, a, k: z3.Or(*[f(one([x]), s) for x in (a[0] if isinstance(a[0], tuple) else (a[0],))]))
    if name == "__contains__": return m(lambda w, a, k: z3.Contains(s, one(a)))
    if name == "count":
        def count(w, a, k):
            n = w.fresh("count", z3.IntSort())
            w.assume(z3.And(n >= 0, (n == 0) == z3.Not(z3.Contains(s, one(a)))))
            return n
        return m(count)
    if name == "replace": return m(lambda w, a, k: same_if(w, s, z3.Not(z3.Contains(s, one(a))), "replaced"))
    if name in ("strip", "lstrip", "rstrip"):
        def strip(w, a, k):
            if a and a[0] is not None:
                if not isinstance(a[0], str): raise Unsupported("strip")
                return same_if(w, s, z3.And(*[z3.Not(z3.Contains(s, z3.StringVal(c))) for c in a[0]]), "stripped")
            return same_if(w, s, z3.InRe(s, PLAIN), "stripped")
        return m(strip)
    if name in ("lower", "upper", "casefold", "swapcase", "title", "capitalize"):
        other = z3.Range("A", "Z") if name in ("lower", "casefold") else z3.Range("a", "z") if name == "upper" else z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"))
        return m(lambda w, a, k: same_if(w, s, z3.InRe(s, z3.Intersect(PLAIN, z3.Complement(z3.Concat(z3.Full(z3.ReSort(S)), other, z3.Full(z3.ReSort(S)))))), name))
    if name in ("isalnum", "isdigit", "isdecimal", "isnumeric", "isalpha", "isascii", "isspace", "isupper", "islower", "isidentifier", "isprintable"):
        def test(w, a, k):
            b = w.fresh(name, z3.BoolSort())
            if name in ("isalnum", "isdigit", "isdecimal", "isnumeric", "isascii"): w.assume(z3.Implies(z3.InRe(s, z3.Plus(DIGIT)), b))
            if name != "isascii" and name != "isprintable": w.assume(z3.Implies(z3.Length(s) == 0, z3.Not(b)))
            return b
        return m(test)
    if name in ("ljust", "rjust", "zfill", "expandtabs", "center", "translate", "removeprefix", "removesuffix", "format", "join"): return m(lambda w, a, k: fresh_str(w, name))
    if name in ("partition", "rpartition"):
        def part(w, a, k):
            x = one(a)
            p, q = fresh_str(w, "head"), fresh_str(w, "tail")
            if w.decide(z3.Contains(s, x)):
                w.assume(s == z3.Concat(p, x, q))
                w.assume(z3.Not(z3.Contains(p if name == "partition" else q, x)))
                return (p, x, q)
            return (s, "", "") if name == "partition" else ("", "", s)
        return m(part)
    if name == "split":
        def split(w, a, k):
            if len(a) != 1 or k or not isinstance(a[0], str) or len(a[0]) != 1: return StrList()
            x = z3.StringVal(a[0])
            if z3.is_app_of(s, z3.Z3_OP_SEQ_CONCAT): return split_concat(w, flat(s), a[0], x)
            if not w.decide(z3.Contains(s, x)): return [s]
            p, q = fresh_str(w, "head"), fresh_str(w, "tail")
            w.assume(s == z3.Concat(p, x, q))
            w.assume(z3.Not(z3.Contains(p, x)))
            if not w.decide(z3.Contains(q, x)): return [p, q]
            return Parts([p], 3)
        return m(split)
    if name in ("rsplit", "splitlines"): return m(lambda w, a, k: StrList())
    if name == "encode":
        def encode(w, a, k):
            if w.choose(2): raise PyRaise(UnicodeEncodeError)
            return Opaque()
        return m(encode)
    return None


# ----- regular expressions ------------------------------------------------------------------------------------------
ANY = z3.AllChar(z3.ReSort(S))
NONASCII = z3.Range(z3.Unit(z3.CharVal(0x80)), z3.Unit(z3.CharVal(0x2FFFF)))
CATS = {"CATEGORY_DIGIT": [("0", "9")], "CATEGORY_WORD": [("0", "9"), ("a", "z"), ("A", "Z"), ("_", "_")], "CATEGORY_SPACE": [(" ", " "), ("\t", "\r"), ("\x1c", "\x1f")]}


def _union(rs): return rs[0] if len(rs) == 1 else z3.Union(*rs) if rs else z3.Empty(z3.ReSort(S))
def _cat(rs): return rs[0] if len(rs) == 1 else z3.Concat(*rs) if rs else z3.Re("")
def _rng(a, b): return z3.Range(a, b) if a != b else z3.Re(a)


def _char(c):
    if c > 0x2FFFF or c > 0x7F: raise Unsupported("regular expression with non-ASCII characters")
    return chr(c)


def regex(p, flags):
    """(under-, over-approximation) of the language of a parsed pattern"""
    if flags & ~(re.U | re.S | re.A) & (re.I | re.M | re.X | re.L): raise Unsupported("regular expression flags")
    lo, hi = [], []
    for op, av in p:
        n = str(op)
        if n == "LITERAL": l = h = z3.Re(_char(av))
        elif n == "NOT_LITERAL": l = h = z3.Intersect(ANY, z3.Complement(z3.Re(_char(av))))
        elif n == "ANY": l = h = ANY if flags & re.S else z3.Intersect(ANY, z3.Complement(z3.Re("\n")))
        elif n == "IN":
            neg, ls, hs = False, [], []
            for o, a in av:
                o = str(o)
                if o == "NEGATE": neg = True
                elif o == "LITERAL": ls.append(z3.Re(_char(a))); hs.append(ls[-1])
                elif o == "RANGE": ls.append(_rng(_char(a[0]), _char(a[1]))); hs.append(ls[-1])
                elif o == "CATEGORY" and str(a) in CATS:
                    x = _union([_rng(*r) for r in CATS[str(a)]])
                    ls.append(x)
                    hs.append(x if flags & re.A else z3.Union(x, NONASCII))
                else: raise Unsupported("regular expression class")
            l, h = _union(ls), _union(hs)
            if neg: l, h = z3.Intersect(ANY, z3.Complement(h)), z3.Intersect(ANY, z3.Complement(l))
        elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            if n == "POSSESSIVE_REPEAT": raise Unsupported(n)
            a, b, sub = av
            l, h = regex(sub, flags)
            inf = b == sre_parse.MAXREPEAT
            f = (lambda r: z3.Star(r) if a == 0 else z3.Plus(r) if a == 1 else z3.Concat(z3.Loop(r, a, a), z3.Star(r))) if inf else (lambda r: z3.Option(r) if (a, b) == (0, 1) else z3.Loop(r, a, b))
            l, h = f(l), f(h)
        elif n == "SUBPATTERN": l, h = regex(av[3], flags)
        elif n == "BRANCH":
            rs = [regex(x, flags) for x in av[1]]
            l, h = _union([x[0] for x in rs]), _union([x[1] for x in rs])
        else: raise Unsupported("regular expression %s" % n)
        lo.append(l)
        hi.append(h)
    return _cat(lo), _cat(hi)


class Match(SV):
    def __init__(self, s, pat): self.s, self.pat = s, pat
    def truth(self, w): return True

    def group_of(self, w, k):
        if k == 0: return self.whole(w)
        if not hasattr(self, "g"): self.g = {}
        if k not in self.g:
            opt = w.choose(2) if self.optional(k) else 0
            self.g[k] = None if opt else fresh_str(w, "group%s" % k)
            sub = self.sub(k)
            if not opt and sub is not None: w.assume(z3.InRe(self.g[k], sub))
        return self.g[k]

    def sub(self, k):
        def find(p):
            for op, av in p:
                n = str(op)
                r = None
                if n == "SUBPATTERN":
                    if av[0] == k: return av[3]
                    r = find(av[3])
                elif n in ("MAX_REPEAT", "MIN_REPEAT"): r = find(av[2])
                elif n == "BRANCH": r = next((x for x in (find(y) for y in av[1]) if x is not None), None)
                if r is not None: return r
        p = find(self.pat.parsed)
        try:
            return regex(p, self.pat.flags)[1] if p is not None else None
        except Unsupported:
            return None

    def optional(self, k):
        """may the group stay unset: it is inside a repetition from 0 or an alternative"""
        def find(p, opt):
            for op, av in p:
                n = str(op)
                if n == "SUBPATTERN":
                    if av[0] == k: return opt
                    r = find(av[3], opt)
                elif n in ("MAX_REPEAT", "MIN_REPEAT"): r = find(av[2], opt or av[0] == 0)
                elif n == "BRANCH": r = next((x for x in (find(y, True) for y in av[1]) if x is not None), None)
                else: r = None
                if r is not None: return r
            return None
        return find(self.pat.parsed, False)

    def whole(self, w):
        if not hasattr(self, "w0"):
            self.w0 = fresh_str(w, "matched")
            w.assume(z3.PrefixOf(self.w0, self.s))
        return self.w0

    def end_(self, w):
        if not hasattr(self, "e"):
            lo, hi = self.pat.parsed.getwidth()
            self.e = w.fresh("end", z3.IntSort())
            w.assume(z3.And(self.e >= lo, self.e <= z3.Length(self.s)))
            if hi < 10 ** 6: w.assume(self.e <= hi)
            if self.pat.mode == "fullmatch": w.assume(self.e == z3.Length(self.s))
            else:
                try:
                    l, h = regex(self.pat.parsed, self.pat.flags)
                    w.assume(z3.Implies(self.e == z3.Length(self.s), z3.InRe(self.s, h)))
                except Unsupported:
                    pass
        return self.e

    def getattr(self, w, name):
        n = self.pat.parsed.state.groups - 1
        if name == "groups": return Fn(name, lambda w, a, k: tuple(self.group_of(w, i) for i in range(1, n + 1)))
        if name == "group": return Fn(name, lambda w, a, k: self.group_of(w, self.index(a[0] if a else 0)) if len(a) < 2 else tuple(self.group_of(w, self.index(x)) for x in a))
        if name == "end": return Fn(name, lambda w, a, k: self.end_(w) if not a else self.no())
        if name == "start": return Fn(name, lambda w, a, k: 0 if not a else self.no())
        raise Unsupported("match.%s" % name)

    def no(self): raise Unsupported("group positions")
    def index(self, x): return self.pat.parsed.state.groupdict[x] if isinstance(x, str) else x
    def getitem(self, w, k): return self.group_of(w, self.index(k))


class Pat:
    def __init__(self, pattern, flags, mode):
        self.parsed = sre_parse.parse(pattern, flags)
        self.flags, self.mode = self.parsed.state.flags, mode


def do_match(w, mode, pattern, s, flags):
    if not isinstance(pattern, str) or not isinstance(flags, (int, re.RegexFlag)): raise Unsupported("symbolic pattern")
    if not (isz(s) and s.sort() == S):
        return NotImplemented if not symbolic(s) else no_str(s)
    pat = Pat(pattern, int(flags), mode)
    ops = list(pat.parsed)
    tail = None
    if ops and str(ops[-1][0]) == "AT" and mode == "match":
        tail = {"AT_END": z3.Option(z3.Re("\n")), "AT_END_STRING": z3.Re("")}.get(str(ops[-1][1]))
        ops = ops[:-1]
    if ops and str(ops[0][0]) == "AT" and str(ops[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING"): ops = ops[1:]
    b = w.fresh("matches", z3.BoolSort())
    try:
        l, h = regex(ops, pat.flags)
        if mode == "match": l, h = [z3.Concat(x, tail if tail is not None else z3.Full(z3.ReSort(S))) for x in (l, h)]
        if mode == "search": l, h = [z3.Concat(z3.Full(z3.ReSort(S)), x, z3.Full(z3.ReSort(S))) for x in (l, h)]
        if l is h or l.eq(h): w.assume(b == z3.InRe(s, l))
        else: w.assume(z3.And(z3.Implies(z3.InRe(s, l), b), z3.Implies(b, z3.InRe(s, h))))
    except Unsupported:
        pass
    return Match(s, pat) if w.decide(b) else None


def no_str(s): raise PyRaise(TypeError, ("expected string",))


def install(w):
    w.hooks["zattr"] = zstr_attr

    def raising(fn, result, *exc):
        def h(w, a, k):
            if w.concrete(a) and w.concrete(k): return NotImplemented
            c = w.choose(1 + len(exc))
            if c: raise PyRaise(exc[c - 1])
            return result(w)
        w.contract(fn, h)

    def num(w, a, k):
        """int(): the denoted integer for an integer numeral; something, or ValueError, otherwise"""
        if w.concrete(a) and w.concrete(k): return NotImplemented
        x = a[0]
        if isinstance(x, SV) or not isz(x): raise Unsupported("int of %s" % x)
        if x.sort() == z3.IntSort(): return x
        if x.sort() != S: raise Unsupported("int of %s" % x)
        base = a[1] if len(a) > 1 else k.get("base", 10)
        if base == 10 and w.decide(z3.InRe(x, INTLEX)):
            w.assume(z3.Implies(z3.InRe(x, z3.Loop(DIGIT, 1, 6)), z3.And(den_int(x) >= 0, den_int(x) < 10 ** 6)))
            return den_int(x)
        if w.choose(2): raise PyRaise(ValueError)
        return w.fresh("int", z3.IntSort())
    w.contract(int, num)

    def ratio(w, a, k):
        """Fraction() of integers"""
        if w.concrete(a) and w.concrete(k): return NotImplemented
        k = {**dict(zip(("numerator", "denominator"), a)), **k}
        n, d = k.get("numerator", 0), k.get("denominator", 1)
        if not all(isinstance(x, int) or isz(x) and x.sort() == z3.IntSort() for x in (n, d)): raise Unsupported("Fraction of %s and %s" % (n, d))
        n, d = [z3.IntVal(x) if isinstance(x, int) else x for x in (n, d)]
        if w.decide(d == 0): raise PyRaise(ZeroDivisionError)
        return Ratio(z3.ToReal(n) / z3.ToReal(d))
    w.contract(fractions.Fraction, ratio)

    def dec(w, a, k):
        """Decimal(): the denoted number for a decimal or scientific numeral (exponent of at most 17 digits)"""
        if w.concrete(a) and w.concrete(k): return NotImplemented
        x = a[0]
        if isinstance(x, Dec): return x
        if not isz(x) or x.sort() != S: raise Unsupported("Decimal of %s" % x)
        if w.decide(z3.InRe(x, NUMLEX)): return Dec(den_num(x))
        c = w.choose(3)
        if c == 0: raise PyRaise(decimal.InvalidOperation)
        return Dec(w.fresh("decimal", z3.RealSort())) if c == 1 else Dec()
    w.contract(Decimal, dec)

    def hexl(w, a, k):
        """unhexlify(): the denoted octets for an even number of hexadecimal digits"""
        if w.concrete(a) and w.concrete(k): return NotImplemented
        x = a[0]
        if not isz(x) or x.sort() != S: raise Unsupported("unhexlify of %s" % x)
        if w.decide(z3.And(z3.InRe(x, HEXLEX), z3.Length(x) % 2 == 0)): return Octets(den_hex(x))
        raise PyRaise(binascii.Error if w.choose(2) else ValueError)
    w.contract(binascii.unhexlify, hexl)
    w.contract(binascii.a2b_hex, hexl)

    def fromhex(w, a, k):
        if w.concrete(a) and w.concrete(k): return NotImplemented
        x = a[0]
        if isz(x) and x.sort() == S and w.decide(z3.And(z3.InRe(x, HEXLEX), z3.Length(x) % 2 == 0)): return Octets(den_hex(x))
        if w.choose(2): raise PyRaise(ValueError)
        return Octets(w.fresh("octets", z3.IntSort()))
    w.named["bytes.fromhex"] = fromhex
    raising(float, lambda w: Opaque((TypeError, OverflowError)), ValueError)
    raising(urllib.parse.urlsplit, lambda w: tuple(fresh_str(w, "uri") for _ in range(5)), ValueError)
    raising(urllib.parse.urlparse, lambda w: tuple(fresh_str(w, "uri") for _ in range(6)), ValueError)
    for f in (base64.standard_b64decode, base64.b64decode, base64.decodebytes, binascii.a2b_base64): raising(f, lambda w: Octets(w.fresh("octets", z3.IntSort())), binascii.Error, ValueError)
    import xml.dom.minidom, xml.parsers.expat
    raising(xml.dom.minidom.parseString, lambda w: Opaque((Exception,)), xml.parsers.expat.ExpatError, ValueError, LookupError)

    def strptime(w, a, k):
        """time.strptime(): a struct of fields in their ranges, or ValueError"""
        if w.concrete(a) and w.concrete(k): return NotImplemented
        if w.choose(2): raise PyRaise(ValueError)
        return Struct(w)
    w.contract(time.strptime, strptime)
    def ctor(w, a, k, delta):
        """ValueError for fields out of range (not timedelta); OverflowError only for huge arguments"""
        if w.concrete(a) and w.concrete(k): return NotImplemented
        big = [z3.Or(x > 10 ** 6, x < -10 ** 6) for x in list(a) + list(k.values()) if isz(x) and x.sort() == z3.IntSort()]
        if big and w.decide(z3.Or(*big)): raise PyRaise(OverflowError)
        if not delta and w.choose(2): raise PyRaise(ValueError)
        return Opaque()
    for c in (datetime.datetime, datetime.date, datetime.time): w.contract(c, lambda w, a, k: ctor(w, a, k, False))
    w.contract(datetime.timedelta, lambda w, a, k: ctor(w, a, k, True))
    raising(datetime.datetime.strptime, lambda w: Opaque((ValueError,)), ValueError)

    for mode in ("match", "fullmatch", "search"):
        w.contract(getattr(re, mode), lambda w, a, k, mode=mode: NotImplemented if w.concrete(a) and w.concrete(k) else do_match(w, mode, *(list(a) + list(k.values()) + [0])[:3]))
        w.methods[(re.Pattern, mode)] = lambda w, me, a, k, mode=mode: NotImplemented if w.concrete(a) else do_match(w, mode, me.pattern, a[0], me.flags & ~re.U | 0)
    w.methods[(str, "join")] = lambda w, me, a, k: NotImplemented if w.concrete(a) else fresh_str(w, "joined") if isinstance(a[0], StrList) or not isinstance(a[0], SV) and all(isinstance(x, str) or isz(x) and x.sort() == S for x in a[0]) else NotImplemented


class Struct(SV):
    def __init__(self, w): self.f = {}

    def getattr(self, w, name):
        rng = {"tm_year": (0, 9999), "tm_mon": (1, 12), "tm_mday": (1, 31), "tm_hour": (0, 23), "tm_min": (0, 59), "tm_sec": (0, 61)}.get(name)
        if rng is None: raise Unsupported("struct_time.%s" % name)
        if name not in self.f:
            self.f[name] = w.fresh(name, z3.IntSort())
            w.assume(z3.And(self.f[name] >= rng[0], self.f[name] <= rng[1]))
        return self.f[name]

    def getitem(self, w, k):
        names = ["tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec"]
        if isinstance(k, slice): return [self.getattr(w, n) for n in names[k]]
        return self.getattr(w, names[k])

    def truth(self, w): return True


TRUST = {
    "int": "the denoted integer for [+-]?[0-9]+ (at most 4300 digits); otherwise anything or ValueError",
    "decimal.Decimal": "the exact denoted number for a (scientific) numeral; otherwise anything or InvalidOperation; abs() rounds to 28 digits",
    "binascii.unhexlify": "the denoted octets for an even number of hexadecimal digits; ValueError or binascii.Error otherwise",
    "fractions.Fraction": "numerator / denominator of two integers, ZeroDivisionError for the denominator 0",
    "str methods, re": "exact for find, contains, slices, concatenation and the regular expressions translated; otherwise left open",
    "urllib.parse, base64, time.strptime, datetime": "raise ValueError (datetime also OverflowError) only; minidom may raise anything",
}
