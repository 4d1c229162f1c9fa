"""When formatting a message raises, whatever the values are."""
import re
import string

SPEC = re.compile(r"%(?P<key>\([^)]*\))?[#0 +-]*(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<c>.)?", re.S)


def percent(fmt, arg, number):
    """the exception fmt % arg raises for certain, or None; number(x): whether x can be formatted as a number (None: unknown)"""
    conv = []
    for m in SPEC.finditer(fmt):
        if m.group("c") == "%" and not m.group("key"): continue
        if m.group("c") is None or m.group("c") not in "diouxXeEfFgGcrsa": return ValueError
        if m.group("key"): return None                 # a mapping
        conv += ["*"] * ((m.group("w") == "*") + (m.group("p") == "*")) + [m.group("c")]
    args = list(arg) if isinstance(arg, tuple) else [arg]
    if len(args) != len(conv): return None if not conv and isinstance(arg, dict) else TypeError
    if any(c in "*diouxXeEfFgGc" and number(x) is False for c, x in zip(conv, args)): return TypeError
    return None


def braces(fmt, args, kw):
    """the exception fmt.format(*args, **kw) raises for certain, or None"""
    auto = 0
    try:
        for _, field, spec, conv in string.Formatter().parse(fmt):
            if field is None: continue
            name = re.split(r"[.\[]", field, maxsplit=1)[0]
            if name == "": name, auto = str(auto), auto + 1
            if name.isdigit() and int(name) >= len(args): return IndexError
            if not name.isdigit() and name not in kw: return KeyError
    except ValueError:
        return ValueError
    return None
