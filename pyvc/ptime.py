"""C22: the dateTime, dateTimeStamp, time and date conversions on every layout of the lexical form, with symbolic digits.
A string is a sequence of characters, digit variables (integers 0..9) and at most one run of further digits of any length."""
import datetime
import re
import re._parser as sre_parse
import time
import z3
from . import load
from .exec import Unsupported
from .pure import SV, Fn, PyRaise, Obj, isz, lift, run_world, pure_jobs
import owlrl.DatatypeHandling as DH
from rdflib.namespace import XSD

date_ok = z3.Function("is_a_date", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())


class Run:
    """one or more further digits"""
    def __repr__(self): return "<digits>"


class CStr(SV):
    def __init__(self, els): self.els = list(els)
    def __repr__(self): return "".join(e if isinstance(e, str) else "d" if isz(e) else "*" for e in self.els)
    def runs(self): return [k for k, e in enumerate(self.els) if isinstance(e, Run)]
    def plain(self): return all(isinstance(e, str) for e in self.els)
    def conc(self): return "".join(self.els)
    def digits(self): return all(isz(e) or isinstance(e, Run) or e.isdigit() and e.isascii() for e in self.els)

    def length(self, w):
        if not self.runs(): return len(self.els)
        n = w.fresh("length", z3.IntSort())
        w.assume(n >= len(self.els))
        return n

    def truth(self, w): return bool(self.els)
    def isinst(self, w, cls): return issubclass(str, cls)
    def text(self, w): return self

    def index(self, k):
        """an element position for a character position"""
        r = self.runs()
        if not isinstance(k, int): raise Unsupported("symbolic index into a string")
        n = len(self.els)
        if k >= 0:
            if r and k > r[0]: raise Unsupported("position behind a run of digits")
            return min(k, n)
        if r and n + k <= r[0]: raise Unsupported("position before a run of digits, from the end")
        return max(n + k, 0)

    def getitem(self, w, k):
        if isinstance(k, slice):
            if k.step is not None: raise Unsupported("slice step")
            if k.start == -1 and k.stop is None and self.els and isinstance(self.els[-1], Run): return CStr([self.some_digit(w)])
            a = 0 if k.start is None else self.index(k.start)
            b = len(self.els) if k.stop is None else self.index(k.stop)
            return CStr(self.els[a:b])
        if k == -1 and self.els and isinstance(self.els[-1], Run): return CStr([self.some_digit(w)])
        i = self.index(k)
        if k < 0 and len(self.els) + k < 0 or i >= len(self.els): raise PyRaise(IndexError)
        if isinstance(self.els[i], Run): raise Unsupported("a digit of a run")
        return CStr([self.els[i]])

    def some_digit(self, w):
        d = w.fresh("digit", z3.IntSort())
        w.assume(z3.And(d >= 0, d <= 9))
        return d

    def same(self, w, els):
        if any(isinstance(e, Run) for e in self.els) or any(isinstance(e, Run) for e in els): raise Unsupported("comparing strings with runs of digits")
        if len(els) != len(self.els): return False
        cs = []
        for a, b in zip(self.els, els):
            if isinstance(a, str) and isinstance(b, str):
                if a != b: return False
            elif isz(a) and isz(b): cs.append(a == b)
            else:
                d, c = (a, b) if isz(a) else (b, a)
                if c not in "0123456789": return False
                cs.append(d == int(c))
        return z3.And(*cs) if cs else True

    def of(self, x):
        if isinstance(x, CStr): return x.els
        if isinstance(x, str): return list(x)
        raise Unsupported("string argument %s" % x)

    def eq(self, w, o):
        if not isinstance(o, (str, CStr)): return False
        els = self.of(o)
        if self.runs():
            if len(els) < len(self.els): return False
            ks = self.runs()[0]
            if any(isinstance(a, str) and isinstance(b, str) and a != b for a, b in zip(self.els[:ks], els)): return False
        return self.same(w, els)

    def binop(self, w, op, other, swapped):
        import ast
        if isinstance(op, ast.Add) and isinstance(other, (str, CStr)): return CStr(self.of(other) + self.els) if swapped else CStr(self.els + self.of(other))
        if isinstance(op, ast.Mod):
            from .pure import Text
            return Text()
        raise Unsupported("string operator")

    def positions(self, x):
        """element positions where the concrete string x occurs; x must not contain digits"""
        if not isinstance(x, str) or not x or any(c.isdigit() for c in x): raise Unsupported("searching digits in a symbolic string")
        return [k for k in range(len(self.els) - len(x) + 1) if self.els[k:k + len(x)] == list(x)]

    def contains(self, w, x):
        if isinstance(x, CStr) and x.plain(): x = x.conc()
        return bool(self.positions(x))

    def charpos(self, k):
        r = self.runs()
        if r and k > r[0]: raise Unsupported("position behind a run of digits")
        return k

    def iterate(self, w):
        if self.runs(): raise Unsupported("iterating over a run of digits")
        return [CStr([e]) if isz(e) else e for e in self.els]

    def getattr(self, w, name):
        def m(f): return Fn("str." + name, lambda w, a, k: f(*a))
        if name in ("find", "index", "rfind", "rindex"):
            def find(x):
                p = self.positions(x)
                if not p:
                    if name.endswith("index"): raise PyRaise(ValueError)
                    return -1
                return self.charpos(p[0 if name[0] != "r" else -1])
            return m(find)
        if name == "count": return m(lambda x: len(self.positions(x)))
        if name in ("startswith", "endswith"):
            def se(xs):
                rs = []
                for x in xs if isinstance(xs, tuple) else (xs,):
                    els = self.of(x)
                    part = self.els[:len(els)] if name == "startswith" else self.els[len(self.els) - len(els):] if len(els) <= len(self.els) else None
                    if part is None or len(part) < len(els): rs.append(False)
                    elif any(isinstance(a, Run) and not (isinstance(b, str) and b not in "0123456789") for a, b in zip(part, els)): raise Unsupported(name)
                    else: rs.append(False if any(isinstance(a, Run) for a in part) else CStr(part).same(w, els))
                return any(rs) if all(isinstance(r, bool) for r in rs) else z3.Or(*[r if isz(r) else z3.BoolVal(r) for r in rs])
            return m(se)
        if name in ("strip", "lstrip", "rstrip"):
            def strip(chars=None):
                cs = " \t\n\r\x0b\x0c" if chars is None else chars
                if any(c.isdigit() for c in cs): raise Unsupported("stripping digits")
                e = list(self.els)
                while name != "rstrip" and e and isinstance(e[0], str) and e[0] in cs: e.pop(0)
                while name != "lstrip" and e and isinstance(e[-1], str) and e[-1] in cs: e.pop()
                return CStr(e)
            return m(strip)
        if name in ("split", "rsplit", "partition", "rpartition"):
            def split(x=None, n=-1):
                if x is None: raise Unsupported("split at blanks")
                p = self.positions(x)
                if name.endswith("partition"):
                    if not p: return (self, "", "") if name == "partition" else ("", "", self)
                    k = p[0 if name == "partition" else -1]
                    return (CStr(self.els[:k]), x, CStr(self.els[k + len(x):]))
                if n >= 0: p = p[:n] if name == "split" else p[len(p) - n:] if n else []
                out, a = [], 0
                for k in p:
                    out.append(CStr(self.els[a:k]))
                    a = k + len(x)
                return out + [CStr(self.els[a:])]
            return Fn("str." + name, lambda w, a, k: split(*a, **({"n": k["maxsplit"]} if "maxsplit" in k else {})))
        if name in ("ljust", "rjust", "zfill"):
            def just(n, c=" "):
                if name == "zfill": c = "0"
                if len(self.els) >= n: return self
                if self.runs(): raise Unsupported("padding a run of digits")
                pad = [c] * (n - len(self.els))
                if name == "zfill" and self.els and isinstance(self.els[0], str) and self.els[0] in "+-": return CStr(self.els[:1] + pad + self.els[1:])
                return CStr(self.els + pad if name == "ljust" else pad + self.els)
            return m(just)
        if name in ("isdigit", "isdecimal", "isnumeric"): return m(lambda: bool(self.els) and self.digits())
        if name in ("lower", "upper"): return m(lambda: CStr([getattr(e, name)() if isinstance(e, str) else e for e in self.els]))
        if name == "replace":
            def rep(x, y):
                p, out, k = self.positions(x), [], 0
                while k < len(self.els):
                    if k in p: out += list(y); k += len(x)
                    else: out.append(self.els[k]); k += 1
                return CStr(out)
            return m(rep)
        if name in ("removesuffix", "removeprefix"):
            def rem(x):
                if any(c.isdigit() for c in x): raise Unsupported(name)
                part = self.els[:len(x)] if name == "removeprefix" else self.els[len(self.els) - len(x):]
                if len(x) > len(self.els) or part != list(x): return self
                return CStr(self.els[len(x):] if name == "removeprefix" else self.els[:len(self.els) - len(x)])
            return m(rem)
        raise Unsupported("str.%s" % name)


# ----- regular expressions on such strings ---------------------------------------------------------------------------
INSIDE = 0.5


def charset(items):
    """(predicate on concrete characters, set of matched digits)"""
    neg, tests = False, []
    for o, a in items:
        o = str(o)
        if o == "NEGATE": neg = True
        elif o == "LITERAL": tests.append(lambda c, a=a: ord(c) == a)
        elif o == "RANGE": tests.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
        elif o == "CATEGORY":
            f = {"CATEGORY_DIGIT": str.isdigit, "CATEGORY_SPACE": str.isspace, "CATEGORY_WORD": lambda c: c.isalnum() or c == "_"}.get(str(a).replace("NOT_", ""))
            if f is None: raise Unsupported("regular expression class")
            tests.append((lambda c, f=f: not f(c)) if "NOT_" in str(a) else f)
        else: raise Unsupported("regular expression class")
    return lambda c: any(t(c) for t in tests) != neg


def matcher(w, els, parsed, mode):
    """group spans of the match, or None"""
    n = len(els)

    def one(test, pos):
        """positions after matching one character at pos"""
        if pos == int(pos):
            pos = int(pos)
            if pos >= n: return None
            e = els[pos]
            if isinstance(e, str): return pos + 1 if test(e) else None
        else: e = els[int(pos)]
        ds = [c for c in "0123456789" if test(c)]
        if isz(e):
            if len(ds) == 10: return pos + 1
            if not ds: return None
            return pos + 1 if w.decide(z3.Or(*[e == int(c) for c in ds])) else None
        if not ds: return None
        raise Unsupported("a digit of a run in a regular expression")

    def run(ops, k, pos, groups, cont):
        if k == len(ops): return cont(pos, groups)
        op, av = ops[k]
        nm = str(op)
        rest = lambda p, g: run(ops, k + 1, p, g, cont)
        if nm in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            t = {"LITERAL": lambda: lambda c: ord(c) == av, "NOT_LITERAL": lambda: lambda c: ord(c) != av, "ANY": lambda: lambda c: c != "\n", "IN": lambda: charset(av)}[nm]()
            p = one(t, pos)
            return None if p is None else rest(p, groups)
        if nm == "AT":
            a = str(av)
            if a in ("AT_BEGINNING", "AT_BEGINNING_STRING"): return rest(pos, groups) if pos == 0 else None
            if a in ("AT_END", "AT_END_STRING"): return rest(pos, groups) if pos == n or a == "AT_END" and pos == n - 1 and els[n - 1] == "\n" else None
            raise Unsupported("anchor")
        if nm == "SUBPATTERN":
            g = av[0]
            return run(list(av[3]), 0, pos, groups, lambda p, gr: rest(p, {**gr, g: (pos, p)} if g is not None else gr))
        if nm == "BRANCH":
            for alt in av[1]:
                r = run(list(alt), 0, pos, groups, rest)
                if r is not None: return r
            return None
        if nm in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            sub = list(sub)
            single = len(sub) == 1 and str(sub[0][0]) in ("LITERAL", "NOT_LITERAL", "ANY", "IN")

            def rep(count, p, gr):
                def more():
                    if hi != sre_parse.MAXREPEAT and count >= hi: return None
                    if p == int(p) and p < n and isinstance(els[int(p)], Run):
                        # a run: consumed wholly or in part by the same class
                        if not single: raise Unsupported("a run of digits in a group repetition")
                        o, a = sub[0]
                        t = {"LITERAL": lambda: lambda c: ord(c) == a, "NOT_LITERAL": lambda: lambda c: ord(c) != a, "ANY": lambda: lambda c: c != "\n", "IN": lambda: charset(a)}[str(o)]()
                        ds = [c for c in "0123456789" if t(c)]
                        if not ds: return None
                        if len(ds) < 10 or hi != sre_parse.MAXREPEAT: raise Unsupported("a run of digits in a regular expression")
                        r = rep(max(count, lo) if count + 1 >= lo else count + 1, p + 1, gr)
                        return r if r is not None else rest(p + INSIDE, gr) if count + 1 >= lo else None
                    if p != int(p): raise Unsupported("a run of digits in a regular expression")
                    return run(sub, 0, p, gr, lambda q, g2: rep(count + 1, q, g2) if q != p or count < lo else None)
                if count < lo: return more()
                if nm == "MAX_REPEAT":
                    r = more()
                    return r if r is not None else rest(p, gr)
                r = rest(p, gr)
                return r if r is not None else more()
            return rep(0, pos, groups)
        raise Unsupported("regular expression %s" % nm)

    end = lambda p, g: {**g, 0: (start, p)} if mode != "fullmatch" or p == n else None
    for start in range(n + 1) if mode == "search" else (0,):
        r = run(list(parsed), 0, start, {}, end)
        if r is not None: return r
    return None


class CMatch(SV):
    def __init__(self, s, parsed, spans): self.s, self.parsed, self.spans = s, parsed, spans
    def truth(self, w): return True

    def group(self, k):
        if isinstance(k, str): k = self.parsed.state.groupdict[k]
        if k not in self.spans: return None
        a, b = self.spans[k]
        if a != int(a) or b != int(b): raise Unsupported("a group cuts a run of digits")
        return CStr(self.s.els[int(a):int(b)])

    def getattr(self, w, name):
        if name == "groups": return Fn(name, lambda w, a, k: tuple(x if (x := self.group(i)) is not None else (a[0] if a else None) for i in range(1, self.parsed.state.groups)))
        if name == "group": return Fn(name, lambda w, a, k: self.group(a[0] if a else 0) if len(a) < 2 else tuple(self.group(x) for x in a))
        if name == "groupdict": return Fn(name, lambda w, a, k: {x: self.group(i) for x, i in self.parsed.state.groupdict.items()})
        if name in ("start", "end"): return Fn(name, lambda w, a, k: self.s.charpos(self.spans[a[0] if a else 0][name == "end"]))
        raise Unsupported("match.%s" % name)

    def getitem(self, w, k): return self.group(k)


# ----- times ----------------------------------------------------------------------------------------------------------
class Rec(SV):
    """a struct_time, datetime, date or time with the given fields"""
    def __init__(self, kind, f): self.kind, self.f = kind, f
    def truth(self, w): return True
    TM = {"tm_year": "year", "tm_mon": "month", "tm_mday": "day", "tm_hour": "hour", "tm_min": "minute", "tm_sec": "second"}

    def getattr(self, w, name):
        n = self.TM.get(name, name) if self.kind == "struct" else name
        if n in self.f: return self.f[n]
        if name == "replace":
            def rep(w, a, k):
                if a: raise Unsupported("replace")
                return make(w, self.kind, [], {**self.f, **k})
            return Fn(name, rep)
        if self.kind == "datetime" and name in ("date", "time", "timetz"):
            ks = FIELDS["date"] if name == "date" else FIELDS["time"]
            return Fn(name, lambda w, a, k: Rec(name[:4], {x: (None if x == "tzinfo" and name == "time" else self.f[x]) for x in ks}))
        raise Unsupported("%s.%s" % (self.kind, name))

    def getitem(self, w, k):
        vals = [self.f[x] for x in ("year", "month", "day", "hour", "minute", "second")]
        r = (vals + [Unknown()] * 3)[k]
        return r

    def iterate(self, w): return [self.f[x] for x in ("year", "month", "day", "hour", "minute", "second")] + [Unknown()] * 3
    def isinst(self, w, cls): return issubclass({"struct": time.struct_time}.get(self.kind) or getattr(datetime, self.kind), cls)


class Unknown(SV):
    pass


class Delta(SV):
    """a timedelta of a number of seconds"""
    def __init__(self, s): self.s = s
    def truth(self, w): return self.s != 0

    def binop(self, w, op, o, swapped):
        import ast
        x = o.s if isinstance(o, Delta) else o
        if isinstance(op, ast.Mult) and not isinstance(o, Delta): return Delta(self.s * x)
        if isinstance(op, (ast.Add, ast.Sub)) and isinstance(o, (Delta, datetime.timedelta)):
            if isinstance(o, datetime.timedelta): x = int(o.total_seconds())
            return Delta(self.s + x if isinstance(op, ast.Add) else x - self.s if swapped else self.s - x)
        raise Unsupported("timedelta arithmetic")

    def getattr(self, w, name):
        if name == "total_seconds": return Fn(name, lambda w, a, k: self.s)
        if name == "__neg__": return Fn(name, lambda w, a, k: Delta(-self.s))
        raise Unsupported("timedelta.%s" % name)


class Zone(SV):
    """datetime.timezone of an offset"""
    def __init__(self, s): self.s = s
    def truth(self, w): return True
    def getattr(self, w, name):
        if name == "utcoffset": return Fn(name, lambda w, a, k: Delta(self.s))
        raise Unsupported("timezone.%s" % name)


FIELDS = {"datetime": ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"], "date": ["year", "month", "day"], "time": ["hour", "minute", "second", "microsecond", "tzinfo"]}
LIMITS = {"year": (1, 9999), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59), "microsecond": (0, 999999)}


def iv(x): return z3.IntVal(x) if isinstance(x, int) else x


def make(w, kind, args, kw):
    """the constructors: ValueError unless the fields are in range and a date, else an object with these fields"""
    f = dict(zip(FIELDS[kind], args))
    if len(args) > len(FIELDS[kind]) or set(kw) - set(FIELDS[kind]) - {"fold"}: raise PyRaise(TypeError)
    f.update(kw)
    for n in FIELDS[kind]:
        if n not in f:
            if n in ("year", "month", "day"): raise PyRaise(TypeError)
            f[n] = None if n == "tzinfo" else 0
    cs = []
    for n, (a, b) in LIMITS.items():
        if n in f:
            if not (isz(f[n]) and f[n].sort() == z3.IntSort()) and not isinstance(f[n], int): raise Unsupported("field %s of a %s" % (n, kind))
            cs += [iv(f[n]) >= a, iv(f[n]) <= b]
    if "year" in f: cs.append(date_ok(iv(f["year"]), iv(f["month"]), iv(f["day"])))
    if not w.decide(z3.And(*cs)): raise PyRaise(ValueError)
    return Rec(kind, f)


def strptime(w, s, fmt, micro=False):
    """strptime on fields of full width: ValueError unless the layout and the ranges fit"""
    if not isinstance(s, CStr) or not isinstance(fmt, str): raise Unsupported("strptime")
    els, k, f, i = s.els, 0, {"year": 1900, "month": 1, "day": 1, "hour": 0, "minute": 0, "second": 0, "microsecond": 0}, 0
    names = {"Y": ("year", 4, 0, 9999), "m": ("month", 2, 1, 12), "d": ("day", 2, 1, 31), "H": ("hour", 2, 0, 23), "M": ("minute", 2, 0, 59), "S": ("second", 2, 0, 61)}
    cs = []
    fmt = fmt.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S") if False else fmt
    while i < len(fmt):
        c = fmt[i]
        if c == "%":
            d = fmt[i + 1]
            i += 2
            if d == "f" and micro:
                e = k
                while e < len(els) and e - k < 6 and isz(els[e]): e += 1
                if e == k: raise PyRaise(ValueError)
                v = CStr(els[k:e] + ["0"] * (6 - (e - k)))
                f["microsecond"] = value(v)
                k = e
                continue
            if d not in names: raise Unsupported("strptime %%%s" % d)
            n, wd, lo, hi = names[d]
            part = els[k:k + wd]
            if len(part) < wd or not CStr(part).digits():
                if any(isz(e) or isinstance(e, Run) for e in part[:1]) and d != "Y": raise Unsupported("strptime with a short field")
                raise PyRaise(ValueError)
            if any(isinstance(e, Run) for e in part): raise Unsupported("strptime with a run of digits")
            f[n] = value(CStr(part))
            cs += [iv(f[n]) >= lo, iv(f[n]) <= hi]
            k += wd
        else:
            if k >= len(els) or els[k] != c: raise PyRaise(ValueError)
            k += 1
            i += 1
    if k != len(els): raise PyRaise(ValueError)
    cs.append(iv(f["year"]) >= 1)
    cs.append(date_ok(iv(f["year"]), iv(f["month"]), iv(f["day"])))
    if not w.decide(z3.And(*cs)): raise PyRaise(ValueError)
    if micro: return make(w, "datetime", [], {**f})
    return Rec("struct", f)


def value(s):
    t = None
    for e in s.els:
        x = iv(int(e)) if isinstance(e, str) else e
        t = x if t is None else t * 10 + x
    return t


def setup(w):
    w.base.append(date_ok(1900, 1, 1))

    def num(w, a, k):
        if w.concrete(a) and w.concrete(k): return NotImplemented
        x = a[0]
        if isz(x) and x.sort() == z3.IntSort(): return x
        if not isinstance(x, CStr) or len(a) > 1: raise Unsupported("int of %s" % x)
        els, sign = list(x.els), 1
        if els and isinstance(els[0], str) and els[0] in "+-": sign = -1 if els.pop(0) == "-" else 1
        s = CStr(els)
        if not els or not s.digits(): raise PyRaise(ValueError)
        if s.runs(): return w.fresh("number", z3.IntSort())
        v = value(s)
        return v if sign > 0 else -v
    w.contract(int, num)
    for mode in ("match", "fullmatch", "search"):
        def m(w, mode, pattern, s, flags=0):
            if not isinstance(s, CStr): return NotImplemented
            if not isinstance(pattern, str): raise Unsupported("symbolic pattern")
            p = sre_parse.parse(pattern, int(flags))
            if p.state.flags & (re.I | re.M | re.S): raise Unsupported("regular expression flags")
            r = matcher(w, s.els, p, mode)
            return None if r is None else CMatch(s, p, r)
        w.contract(getattr(re, mode), lambda w, a, k, mode=mode, m=m: m(w, mode, *a, **k))
        w.methods[(re.Pattern, mode)] = lambda w, me, a, k, mode=mode, m=m: m(w, mode, me.pattern, a[0], me.flags & ~re.U)
    w.contract(time.strptime, lambda w, a, k: NotImplemented if w.concrete(a) else strptime(w, a[0], a[1] if len(a) > 1 else k["format"]))
    w.named["datetime.strptime"] = lambda w, a, k: NotImplemented if w.concrete(a) else strptime(w, a[0], a[1], True)
    for kind in FIELDS: w.contract(getattr(datetime, kind), lambda w, a, k, kind=kind: NotImplemented if w.concrete(a) and w.concrete(k) else make(w, kind, a, k))

    def delta(w, a, k):
        if w.concrete(a) and w.concrete(k): return NotImplemented
        if len(a) > 2: raise Unsupported("timedelta")
        k = {**dict(zip(("days", "seconds"), a)), **k}
        unit = {"days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "weeks": 604800}
        if set(k) - set(unit): raise Unsupported("timedelta")
        return Delta(sum((iv(v) if isinstance(v, int) else v) * unit[n] for n, v in k.items()))
    w.contract(datetime.timedelta, delta)

    def zone(w, a, k):
        d = a[0] if a else k.get("offset")
        if not isinstance(d, Delta): return NotImplemented
        if not w.decide(z3.And(d.s < 86400, d.s > -86400)): raise PyRaise(ValueError)
        return Zone(d.s)
    w.contract(datetime.timezone, zone)


def offset_of(w, tz):
    if isinstance(tz, datetime.tzinfo): d = tz.utcoffset(None)
    else:
        d = w.call(w.getattr_(tz, "utcoffset"), [None], {})
    if isinstance(d, Delta): return d.s
    if isinstance(d, datetime.timedelta): return z3.IntVal(int(d.total_seconds())) if d.microseconds == 0 else None
    return None


def layouts():
    for frac in (None, 1, 2, 3, 4, 5, 6, 7):
        for tz in (None, "Z", "+", "-"): yield frac, tz


def conversion(n, parts):
    f = DH.AltXSDToPYTHON[getattr(XSD, n)]

    def b(w):
        setup(w)
        for frac, tz in layouts() if "hour" in parts else [(None, t) for t in (None, "Z", "+", "-")]:
            def body(w, frac=frac, tz=tz):
                def field(name, k):
                    ds = [w.fresh("%s%d" % (name, i), z3.IntSort()) for i in range(k)]
                    for d in ds: w.assume(z3.And(d >= 0, d <= 9))
                    return ds
                F = {x: field(x, 4 if x == "year" else 2) for x in parts}
                els = []
                for x in parts:
                    if els: els.append({"month": "-", "day": "-", "hour": "T"}.get(x, ":"))
                    els += F[x]
                V = {x: value(CStr(F[x])) for x in parts}
                for x, (lo, hi) in LIMITS.items():
                    if x in V: w.assume(z3.And(V[x] >= lo, V[x] <= hi))
                if "year" in V: w.assume(date_ok(V["year"], V["month"], V["day"]))
                micro = z3.IntVal(0)
                if frac:
                    fr = field("fraction", min(frac, 6))
                    micro = value(CStr(fr + ["0"] * (6 - len(fr))))
                    els += ["."] + fr + ([Run()] if frac > 6 else [])
                off = None
                if tz == "Z":
                    els.append("Z")
                    off = z3.IntVal(0)
                elif tz:
                    h, m = field("zh", 2), field("zm", 2)
                    hv, mv = value(CStr(h)), value(CStr(m))
                    w.assume(z3.Or(z3.And(hv <= 13, mv <= 59), z3.And(hv == 14, mv == 0)))
                    els += [tz] + h + [":"] + m
                    off = (hv * 3600 + mv * 60) * (1 if tz == "+" else -1)
                s = CStr(els)
                lab = "%s: " % s
                try:
                    v, err = w.call(f, [s], {}), None
                except PyRaise as e:
                    v, err = None, e
                if n == "dateTimeStamp" and tz is None:
                    if err is None: w.fail(lab + "an offset is required", "returns %s" % v)
                    else: w.prove(lab + "an offset is required", issubclass(err.cls, ValueError))
                    return
                if err is not None:
                    w.fail(lab + "is accepted", "%s on the path %s" % (err.cls.__name__, w.show()))
                    return
                w.ok(lab + "is accepted")
                kind = {"date": "date", "time": "time"}.get(n, "datetime")
                if not isinstance(v, Rec) or v.kind != kind:
                    w.fail(lab + "the stated fields", "returns %s" % (v,))
                    return
                w.prove(lab + "the stated fields", z3.And(*[iv(v.f[x]) == V[x] for x in parts]))
                if kind == "date": return
                w.prove(lab + "the fraction", iv(v.f["microsecond"]) == micro)
                t = v.f["tzinfo"]
                if off is None or t is None:
                    w.prove(lab + "the offset", off is None and t is None)
                else:
                    o = offset_of(w, t)
                    if o is None: w.fail(lab + "the offset", "offset of %s" % t)
                    else: w.prove(lab + "the offset", o == off)
            w.explore(body)
    return "xsd:%s" % n, b


ALL = ["year", "month", "day", "hour", "minute", "second"]


def times(led):
    pure_jobs(led, [run_world(*conversion("dateTime", ALL)), run_world(*conversion("dateTimeStamp", ALL)), run_world(*conversion("time", ALL[3:])), run_world(*conversion("date", ALL[:3]))])


TRUST = {"time.strptime, datetime.strptime": "the fields, when the layout is that of the format and the fields are in range and a date; ValueError otherwise",
         "datetime.datetime, date, time, timedelta, timezone": "objects with the given fields; ValueError out of range", "re": "backtracking matcher of /verif/pyvc/ptime.py over Python's parse of the pattern"}
