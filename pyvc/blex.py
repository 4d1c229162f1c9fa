"""Concrete search for C13: numerals near the limits of every datatype, special values, hexadecimal strings, odd strings."""
import math
import re
from decimal import Decimal
from fractions import Fraction
from . import load
from .concrete import Finding
from .plex import RANGES
import owlrl.DatatypeHandling as DH
from rdflib.namespace import XSD, RDF

MAG = {"double": (Fraction(1, 10 ** 330), Fraction(10) ** 310), "float": (Fraction(1, 10 ** 50), Fraction(10) ** 40)}
NAMES = {str(k).replace(str(XSD), "").replace(str(RDF), "rdf:"): k for k in DH.AltXSDToPYTHON}
ODD = ["", " ", "1_0", "0x1F", "abc", "1.", "1.5", "1e5", "١", "--1", "NaN", "sNaN", "Infinity", "é", "=", "ab=", "%", "%4", "?x", ":x", "-", "+", ".", "en-", "@", "a@", "a@e n", "a@é", "\ud800", "[", "//[", "http://[x", "Z",
       "2000-01-01T00:00:00", "2000-13-01", "T", "10:10:10.", "-00:00", "x+99:99", "<a/>", "<a>", "<", "<?xml version='1.0' encoding='nonsense'?><a/>", "\x00", "a\nb", "a  b", "9" * 5000, "1E" + "9" * 30, "\u2029"]


def digits(rng, n): return "".join(rng.choice("0123456789") for _ in range(n))


def gen(rng):
    k = rng.random()
    if k < .4:
        n = rng.choice(sorted(RANGES))
        lo, hi = RANGES[n]
        x = rng.choice([b for b in (lo, hi) if b is not None] + [0]) + rng.randint(-2, 2)
        if rng.random() < .2: x = rng.choice([-1, 1]) * int(digits(rng, rng.randint(1, 25)))
        t = ("-" if x < 0 else rng.choice(["", "", "+"])) + "0" * rng.choice([0, 0, 1, 3]) + str(abs(x))
        if x == 0 and rng.random() < .3: t = "-" + t.lstrip("+")
        return {"type": n, "text": t}
    if k < .5:
        return {"type": "decimal", "text": rng.choice(["", "-", "+"]) + rng.choice([digits(rng, rng.randint(1, 40)) + rng.choice(["", ".", "." + digits(rng, rng.randint(1, 40))]), "." + digits(rng, rng.randint(1, 40))])}
    if k < .75:
        n = rng.choice(sorted(MAG))
        e = {"double": [310, -330], "float": [40, -50]}[n]
        if rng.random() < .1: return {"type": n, "text": rng.choice(["INF", "-INF", "+INF", "NaN"])}
        m = rng.choice(["0", "0.0", "1", "1.5", "9." + "9" * rng.randint(1, 40), "1." + "0" * rng.randint(1, 40) + "1", digits(rng, 3) + "." + digits(rng, 4), ".5", "5."])
        x = rng.choice(["", "E", "e"])
        if x: x += str(rng.choice(e + [0, 10, -10]) + rng.randint(-2, 2)).replace("-", rng.choice(["-"])).rjust(1)
        return {"type": n, "text": rng.choice(["", "-", "+"]) + m + x}
    if k < .85:
        return {"type": "hexBinary", "text": "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.choice([0, 1, 2, 3, 4, 8, 9])))}
    if k < .9:
        return {"type": "rational", "text": "".join(rng.choice(["", "", "", "-", "+"]) + rng.choice(["0", "1", digits(rng, 3)]) + rng.choice(["/", "/", "//"]) for _ in range(rng.choice([1, 2, 2, 2, 3])))[:-1] or "1"}
    if k < .92: return {"type": "boolean", "text": rng.choice(["true", "false", "0", "1"])}
    return {"type": rng.choice(sorted(NAMES)), "text": rng.choice(ODD) if rng.random() < .8 else "".join(rng.choice("0123456789abzZ+-.:T@=/_ \n%é") for _ in range(rng.randint(0, 12)))}


NUM = re.compile(r"([+-]?)(?:([0-9]+)(?:\.([0-9]*))?|\.([0-9]+))(?:[eE]([+-]?[0-9]{1,17}))?")


def number(t):
    m = NUM.fullmatch(t)
    if not m: return None
    i, f, e = m[2] or "0", m[3] or m[4] or "", int(m[5] or 0)
    if abs(e) > 2000: return None
    return (-1 if m[1] == "-" else 1) * Fraction(int(i + f)) * Fraction(10) ** (e - len(f))


def judge(case):
    n, t = case["type"], case["text"]
    f = DH.AltXSDToPYTHON.get(NAMES.get(n)) if n != "rational" else load.OWLRLExtras._strToRational
    if f is None: return [Finding("missing", "there is no improved conversion for %s" % n)]
    try:
        v, err = f(t), None
    except Exception as e:
        v, err = None, e
    if err is not None and not isinstance(err, ValueError): return [Finding("exception", "xsd:%s %r is rejected by %s, not by ValueError" % (n, t, type(err).__name__))]
    if len(t) > 4300: return []

    def want(x):
        if err is not None: return [Finding("rejected", "xsd:%s %r is rejected: %s" % (n, t, err))]
        return [] if x(v) else [Finding("value", "xsd:%s %r is converted to %r" % (n, t, v))]
    if n in RANGES and re.fullmatch("[+-]?[0-9]+", t):
        lo, hi = RANGES[n]
        x = int(t)
        if (lo is None or lo <= x) and (hi is None or x <= hi): return want(lambda v: isinstance(v, int) and v == x)
        return [] if err is not None else [Finding("accepted", "xsd:%s %r is out of range but accepted as %r" % (n, t, v))]
    if n == "boolean" and t in ("true", "false", "0", "1"): return want(lambda v: v is (t in ("true", "1")))
    if n == "decimal" and number(t) is not None and "e" not in t.lower(): return want(lambda v: isinstance(v, (int, Decimal)) and Fraction(v) == number(t))
    if n == "rational":
        m = re.fullmatch("([+-]?[0-9]+)/([0-9]+)", t)
        if m and int(m[2]): return want(lambda v: v == Fraction(int(m[1]), int(m[2])))
        if m or t.count("/") > 1 or re.fullmatch("[+-]?[0-9]+/[+-][0-9]+", t): return [] if err is not None else [Finding("accepted", "owl:rational %r is accepted as %r" % (t, v))]
    if n in MAG:
        if t in ("INF", "+INF", "-INF", "NaN"): return want(lambda v: math.isnan(v) if t == "NaN" else v == float(t))
        x = number(t)
        if x is not None and (x == 0 or MAG[n][0] < abs(x) < MAG[n][1]): return want(lambda v: isinstance(v, (int, Decimal)) and Fraction(v) == x)
    if n == "hexBinary":
        if len(t) % 2: return [] if err is not None else [Finding("accepted", "xsd:hexBinary %r is accepted" % t)]
        if re.fullmatch("[0-9a-fA-F]*", t): return want(lambda v: bytes(v) == bytes(int(t[k:k + 2], 16) for k in range(0, len(t), 2)))
    return []
