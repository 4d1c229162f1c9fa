"""Concrete search for C22: lexical forms of dates and times against the instant they denote."""
import calendar
import datetime
from . import load
from .concrete import Finding
import owlrl.DatatypeHandling as DH
from rdflib.namespace import XSD


def gen(rng):
    n = rng.choice(["dateTime", "dateTime", "dateTimeStamp", "time", "date"])
    y, mo = rng.choice([1, 4, 99, 1900, 1999, 2000, 2024, 9999, rng.randint(1, 9999)]), rng.randint(1, 12)
    d = rng.choice([1, calendar.monthrange(y, mo)[1], rng.randint(1, 28)])
    h, mi, s = rng.choice([0, 12, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 59, rng.randint(0, 59)])
    frac = rng.choice(["", "", "0", "5", "05", "000001", "999999", "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 12)))])
    tz = rng.choice([None, "Z", rng.choice("+-") + "%02d:%02d" % rng.choice([(0, 0), (0, 30), (14, 0), (13, 59), (5, 45), (rng.randint(0, 13), rng.randint(0, 59))])])
    return {"type": n, "fields": [y, mo, d, h, mi, s], "fraction": frac, "zone": tz}


def text(c):
    y, mo, d, h, mi, s = c["fields"]
    t = []
    if c["type"] != "time": t.append("%04d-%02d-%02d" % (y, mo, d))
    if c["type"] != "date": t.append("%02d:%02d:%02d" % (h, mi, s) + ("." + c["fraction"] if c["fraction"] else ""))
    return "T".join(t) + (c["zone"] or "")


def judge(c):
    n, t, z = c["type"], text(c), c["zone"]
    f = DH.AltXSDToPYTHON.get(getattr(XSD, n))
    try:
        v, err = f(t), None
    except Exception as e:
        v, err = None, e
    if n == "dateTimeStamp" and z is None:
        return [] if isinstance(err, ValueError) else [Finding("stamp", "xsd:dateTimeStamp %r has no offset and is accepted as %r" % (t, v))]
    if err is not None: return [Finding("rejected", "xsd:%s %r is rejected: %s %s" % (n, t, type(err).__name__, err))]
    y, mo, d, h, mi, s = c["fields"]
    us = int((c["fraction"] + "000000")[:6])
    if n == "date": return [] if type(v) is datetime.date and (v.year, v.month, v.day) == (y, mo, d) else [Finding("value", "xsd:date %r is converted to %r" % (t, v))]
    want = (h, mi, s, us) if n == "time" else (y, mo, d, h, mi, s, us)
    try:
        got = (v.hour, v.minute, v.second, v.microsecond) if n == "time" else (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
        off = None if v.tzinfo is None else v.tzinfo.utcoffset(None)
    except Exception as e:
        return [Finding("value", "xsd:%s %r is converted to %r (%s)" % (n, t, v, e))]
    woff = None if z is None else datetime.timedelta(0) if z == "Z" else (1 if z[0] == "+" else -1) * datetime.timedelta(hours=int(z[1:3]), minutes=int(z[4:]))
    if got != want: return [Finding("value", "xsd:%s %r is converted to the fields %r" % (n, t, got))]
    if off != woff: return [Finding("offset", "xsd:%s %r gets the offset %r" % (n, t, off))]
    return []
