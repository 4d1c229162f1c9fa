"""C21: no phase of any shipped closure class raises an exception, for any graph (lists acyclic, restricted datatypes any)."""
from . import concrete, proofs, phases, dtphase
from .phases import Checker, phase, PHASES, Ctor, GraphRef
from .vc import FALSE


def rules(key):
    def g(led):
        from .props import rulesets
        jobs = []
        for rs in rulesets(key):
            jobs += rs.raises_infeasible()
            led.used(rs.run.ex)
            ck = Checker(led)
            ck.ok("%s.rules: has a normal end" % rs.cls.__name__, bool(rs.run.emissions), "nothing is ever stored")
            ck.done()
        proofs.run_jobs(led, jobs)
    return g


def others(keys):
    """the other phases and the constructors"""
    def g(led):
        ck = Checker(led)
        for key in keys:
            for n in PHASES:
                ph = phase(key, n)
                led.used(ph.ex)
                ck.consistent(ph)
                ck.ok("%s: has a normal end" % ph.label, not ph.dead, [x[0] for x in ph.raises])
                for k, (exc, st, where) in enumerate(ph.raises):
                    ck.prove("%s: no %s at %s (%d)" % (ph.label, getattr(exc, "__name__", exc), where, k), ph.entry + st.conds_since(0), FALSE, ph.facts)
            cls = concrete.CLASS[key]
            for dest, ds in (("D", False), ("D", True), (None, False), (None, True), ("name", True)):
                label = "%s(%s, %s)" % (cls.__name__, "dataset" if ds else "graph", {"D": "a graph of the same store", None: "no destination"}.get(dest, "a name"))
                c = Ctor(cls, dest, ds)
                ck.ok("%s: is accepted" % label, not c.dead, [x[0] for x in c.raises])
                for k, (exc, s, where) in enumerate(c.raises):
                    ck.prove("%s: no %s at %s (%d)" % (label, getattr(exc, "__name__", exc), where, k), s.conds_since(0), FALSE, c.ex.facts)
        ck.done()
    return g
