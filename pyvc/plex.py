"""C13: the improved lexical conversions.  Every entry of AltXSDToPYTHON is executed on a symbolic string constrained to the
lexical space of the datatype (a regular language); the result must be the denoted value (or ValueError, out of range)."""
import z3
from . import load, pstr
from .pure import PyRaise, run_world, pure_jobs, isz
from .pstr import Dec, Octets, INTLEX, NUMLEX, MANT, HEXLEX, den_int, den_num, den_hex
import owlrl.DatatypeHandling as DH
from rdflib import Literal
from rdflib.namespace import XSD, RDF

RANGES = {"byte": (-128, 127), "short": (-32768, 32767), "int": (-2 ** 31, 2 ** 31 - 1), "long": (-2 ** 63, 2 ** 63 - 1),
          "unsignedByte": (0, 255), "unsignedShort": (0, 65535), "unsignedInt": (0, 2 ** 32 - 1), "unsignedLong": (0, 2 ** 64 - 1),
          "positiveInteger": (1, None), "nonNegativeInteger": (0, None), "nonPositiveInteger": (None, 0), "negativeInteger": (None, -1)}
MAGNITUDE = {"double": (z3.Q(1, 10 ** 330), z3.RealVal(10 ** 310)), "float": (z3.Q(1, 10 ** 50), z3.RealVal(10 ** 40))}


def conv(n, table=None): return (table or DH.AltXSDToPYTHON)[getattr(XSD, n) if n not in ("PlainLiteral", "XMLLiteral", "HTML") else RDF[n]]


def outcome(w, f, s):
    try:
        return w.call(f, [s], {}), None
    except PyRaise as e:
        return None, e


def setup(w):
    pstr.install(w)

    def lit(w, a, k):
        if w.concrete(a) and w.concrete(k): return NotImplemented
        if w.choose(2): raise PyRaise(ValueError)
        return pstr.Opaque()
    w.contract(Literal, lit)


def integer(n):
    lo, hi = RANGES[n]

    def b(w):
        setup(w)

        def body(w):
            s = w.fresh("lexical", z3.StringSort())
            w.assume(z3.InRe(s, INTLEX))
            d = den_int(s)
            inside = z3.And(*([d >= lo] if lo is not None else []) + ([d <= hi] if hi is not None else []))
            v, e = outcome(w, conv(n), s)
            if e is not None:
                w.prove("numerals in the range are accepted", z3.Not(inside))
                w.prove("rejected by ValueError", issubclass(e.cls, ValueError))
            else:
                w.prove("numerals out of range are rejected", inside)
                if isz(v) and v.sort() == z3.IntSort(): w.prove("the denoted integer is returned", v == d)
                else: w.fail("the denoted integer is returned", "returns %s" % (v,))
        w.explore(body)
    return "xsd:%s" % n, b


def decimal_(w):
    setup(w)

    def body(w):
        s = w.fresh("lexical", z3.StringSort())
        w.assume(z3.InRe(s, MANT))
        v, e = outcome(w, conv("decimal"), s)
        number(w, v, e, s)
    w.explore(body)


def number(w, v, e, s):
    if e is not None: w.fail("numerals are accepted", "%s on the path %s" % (e.cls.__name__, w.show()))
    elif isinstance(v, Dec) and v.r is not None:
        w.ok("numerals are accepted")
        w.prove("the denoted number is returned", v.r == den_num(s))
    else: w.fail("the denoted number is returned", "returns %s" % (v,))


def floating(n):
    lo, hi = MAGNITUDE[n]

    def b(w):
        setup(w)

        def body(w):
            s = w.fresh("lexical", z3.StringSort())
            w.assume(z3.InRe(s, NUMLEX))
            d = den_num(s)
            m = z3.If(d >= 0, d, -d)
            w.assume(z3.Or(d == 0, z3.And(lo < m, m < hi)))
            v, e = outcome(w, conv(n), s)
            number(w, v, e, s)
        w.explore(body)

        def special(w):
            import math
            for s, x in (("INF", math.inf), ("+INF", math.inf), ("-INF", -math.inf), ("NaN", math.nan)):
                try:
                    v = conv(n)(s)
                    ok = isinstance(v, (float, pstr.Decimal)) and (math.isnan(v) if s == "NaN" else v == x)
                except Exception as e:
                    v, ok = e, False
                w.prove("special value %s" % s, ok)
        w.explore(special)
    return "xsd:%s" % n, b


def hexbinary(w):
    setup(w)

    def even(w):
        s = w.fresh("lexical", z3.StringSort())
        w.assume(z3.InRe(s, HEXLEX))
        w.assume(z3.Length(s) % 2 == 0)
        v, e = outcome(w, conv("hexBinary"), s)
        if e is not None: w.fail("pairs of hexadecimal digits are accepted", "%s on the path %s" % (e.cls.__name__, w.show()))
        elif isinstance(v, Octets): w.prove("the denoted octets are returned", v.term == den_hex(s))
        else: w.fail("the denoted octets are returned", "returns %s" % (v,))
    w.explore(even)

    def odd(w):
        s = w.fresh("lexical", z3.StringSort())
        w.assume(z3.Length(s) % 2 == 1)
        v, e = outcome(w, conv("hexBinary"), s)
        if e is None: w.fail("an odd number of characters is rejected", "returns %s on the path %s" % (v, w.show()))
        else: w.prove("an odd number of characters is rejected", issubclass(e.cls, ValueError))
    w.explore(odd)


def boolean(w):
    def body(w):
        for s, x in (("true", True), ("1", True), ("false", False), ("0", False)):
            try:
                v = conv("boolean")(s)
            except Exception as e:
                v = e
            w.prove("boolean %s" % s, v is x)
    w.explore(body)


POSLEX = z3.Plus(z3.Range("0", "9"))


def rational(w):
    """owl:rational: numerator / denominator, the denominator positive and without sign"""
    setup(w)
    f = load.OWLRLExtras._strToRational

    def accepted(w):
        n, d = w.fresh("numerator", z3.StringSort()), w.fresh("denominator", z3.StringSort())
        for c in (z3.InRe(n, INTLEX), z3.InRe(d, POSLEX), den_int(d) > 0): w.assume(c)
        v, e = outcome(w, f, z3.Concat(n, z3.StringVal("/"), d))
        if e is not None: w.fail("rationals are accepted", "%s on the path %s" % (e.cls.__name__, w.show()))
        elif isinstance(v, pstr.Ratio):
            w.ok("rationals are accepted")
            w.prove("the denoted rational is returned", v.r == z3.ToReal(den_int(n)) / z3.ToReal(den_int(d)))
        else: w.fail("the denoted rational is returned", "returns %s" % (v,))
    w.explore(accepted)

    def refused(what, make):
        def body(w):
            s = make(w)
            v, e = outcome(w, f, s)
            if e is None: w.fail("%s is rejected" % what, "returns %s on the path %s" % (v, w.show()))
            else: w.prove("%s is rejected" % what, issubclass(e.cls, ValueError))
        w.explore(body)

    def several(w):
        a, b, c = [w.fresh(x, z3.StringSort()) for x in ("a", "b", "c")]
        for x in (a, b): w.assume(z3.Not(z3.Contains(x, "/")))
        return z3.Concat(a, z3.StringVal("/"), b, z3.StringVal("/"), c)

    def sign(w):
        n, d = w.fresh("numerator", z3.StringSort()), w.fresh("denominator", z3.StringSort())
        w.assume(z3.InRe(n, INTLEX))
        w.assume(z3.InRe(d, z3.Concat(z3.Re("+"), POSLEX)))
        return z3.Concat(n, z3.StringVal("/"), d)

    def small(w):
        n, d = w.fresh("numerator", z3.StringSort()), w.fresh("denominator", z3.StringSort())
        for c in (z3.InRe(n, INTLEX), z3.InRe(d, INTLEX), den_int(d) <= 0): w.assume(c)
        return z3.Concat(n, z3.StringVal("/"), d)
    refused("more than one slash", several)
    refused("a denominator with a plus sign", sign)
    refused("a denominator that is not positive", small)

    def only(w):
        v, e = outcome(w, f, w.fresh("string", z3.StringSort()))
        if e is not None and not issubclass(e.cls, ValueError): w.fail("rejects by ValueError only", "%s escapes on the path %s" % (e.cls.__name__, w.show()))
        else: w.ok("rejects by ValueError only")
    w.explore(only)


def exceptions(k):
    f = DH.AltXSDToPYTHON[k]

    def b(w):
        setup(w)

        def body(w):
            s = w.fresh("string", z3.StringSort())
            v, e = outcome(w, f, s)
            if e is not None and not issubclass(e.cls, ValueError): w.fail("rejects by ValueError only", "%s escapes on the path %s" % (e.cls.__name__, w.show()))
            else: w.ok("rejects by ValueError only")
        w.explore(body)
    return "conversion of %s" % k.n3(), b


def lexical(led):
    jobs = [run_world(*integer(n)) for n in RANGES] + [run_world("xsd:decimal", decimal_), run_world("xsd:hexBinary", hexbinary), run_world("xsd:boolean", boolean), run_world("owl:rational", rational)]
    jobs += [run_world(*floating(n)) for n in MAGNITUDE]
    jobs += [run_world(*exceptions(k)) for k in DH.AltXSDToPYTHON]
    pure_jobs(led, jobs)
