"""Concrete search for C15: language ranges and tags of random subtags against RFC 4647."""
import signal
from . import load
from .concrete import Finding

POOL = ["*", "en", "de", "x", "a", "1", "latn", "deva", "us", "1996", "419", "private", "i", "DE", "X", "Latn"]


def gen(rng):
    pool = rng.sample(POOL, rng.randint(2, 6))
    if rng.random() < .6 and "*" not in pool: pool.append("*")
    r = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
    t = [rng.choice([p for p in pool if p != "*"]) for _ in range(rng.randint(1, 6))]
    if rng.random() < .6:
        # a tag made from the range: subtags inserted, wildcards replaced
        t = []
        for x in r:
            if x != "*": t.append(x)
            while rng.random() < .35: t.append(rng.choice([p for p in POOL if p != "*"]))
        if rng.random() < .3 and t: t.pop(rng.randrange(len(t)))
        t = t or ["en"]
    if rng.random() < .3: t = [x.swapcase() for x in t]
    return {"range": r, "tag": t}


def matches(r, t):
    r, t = [x.lower() for x in r], [x.lower() for x in t]
    if r[0] != "*" and r[0] != t[0]: return False
    r, t = r[1:], t[1:]
    while r:
        if r[0] == "*": r = r[1:]
        elif not t: return False
        elif r[0] == t[0]: r, t = r[1:], t[1:]
        elif len(t[0]) == 1: return False
        else: t = t[1:]
    return True


class Late(Exception):
    pass


def limited(f, seconds=2):
    def h(*a): raise Late()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def judge(case):
    if not case["range"] or not case["tag"]: return []
    r, t = "-".join(case["range"]), "-".join(case["tag"])
    want = matches(case["range"], case["tag"])
    try:
        got = limited(lambda: load.RestrictedDatatype._lang_range_check(r, t))
    except Late:
        return [Finding("loop", "range %r on tag %r: no answer in 2 s" % (r, t))]
    except Exception as e:
        return [Finding("exception", "range %r on tag %r: %s" % (r, t, e))]
    if bool(got) != want: return [Finding("wrong", "range %r on tag %r: %s, RFC 4647 says %s" % (r, t, bool(got), want))]
    return []
