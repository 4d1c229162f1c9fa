"""The properties: which obligations decide each, which concrete search replays a failure."""
import itertools
import random
from . import load, spec, concrete as C, vc, proofs, driver, phases, dtphase, pfacets, plang, plex, pstr, ptime, pglobal, pimport, pentry, pextract, praise
from .vc import TRUSTED

_rulesets = {}


def rulesets(key):
    if key not in _rulesets:
        _rulesets[key] = proofs.ruleset(key)
    return _rulesets[key]


def g_lemmas(led):
    vc.lemma_obligations(led)


def g_rules(key, which, only=None):
    def g(led):
        jobs = []
        for rs in rulesets(key):
            if not rs.run.emissions:
                led.fail("%s: rules" % key, "rules() stores nothing")
            jobs += [j for j in proofs.rule_jobs(rs, which) if only is None or j[0] in only]
            led.used(rs.run.ex)
        proofs.run_jobs(led, jobs)
    return g


class Prop:
    def __init__(self, pid, groups, level="proof", budget=8, assumptions=(), trusted=()):
        self.pid, self.groups, self.level, self.budget = pid, groups, level, budget
        self.assumptions, self._trusted = list(assumptions), list(trusted)

    def trusted(self, led):
        out = set("%s: %s" % kv for kv in TRUSTED.items())
        out |= {"z3 4.x (python API) and, as fallback, cvc5", "the symbolic executor of /verif/pyvc (meaning of the Python subset, CPython 3.12)"}
        return out | set(self._trusted)

    def search(self, budget, seed, failed):
        return {"evaluations": 0}


class GraphProp(Prop):
    """a property observed on expanded graphs"""
    def __init__(self, pid, groups, classes, kinds, rules=None, modes=None, **kw):
        super().__init__(pid, groups, **kw)
        self.classes, self.kinds, self.rules, self.modes = classes, set(kinds), rules, modes

    def rule_list(self, cls):
        if self.rules is not None: return self.rules
        rs = list(spec.RDFS_RULES) if cls == "RDFS" else list(spec.OWLRL)
        if cls in ("BOTH", "EXT", "TRIM"): rs += spec.RDFS_RULES
        if cls in ("EXT", "TRIM"): rs += list(spec.SELF_RULES) * 6
        return rs

    def cases(self, seed, failed):
        gens = []
        for cls in self.classes:
            names = {r.name for r in self.rule_list(cls) if any(r.name in f.replace(",", " ").split() for f in failed)}
            for _ in range(3):
                gens.append(C.rule_cases(cls, self.rule_list(cls), "%s-%d" % (seed, len(gens)), names, self.modes or C.MODES))
            gens.append(C.random_cases(cls, seed))
            if getattr(self, "recipes", None):
                gens += [self.from_recipes(cls, "%s-%d" % (seed, k)) for k in range(4)]
        while True:
            for g in gens:
                yield next(g)

    def from_recipes(self, cls, seed):
        """graphs on which the code does what an obligation that failed is about"""
        from . import recipe
        k = 0
        while True:
            k += 1
            rng = random.Random("%s/%s/recipe%d" % (seed, cls, k))
            ts = recipe.build(rng.choice(self.recipes), rng)
            if rng.random() < .2: ts += recipe.build(rng.choice(self.recipes), rng)
            yield C.Case(cls, ts, rdfs=rng.random() < .5 if cls in ("EXT", "TRIM") else True, note="recipe")

    def judge(self, case):
        return [f for f in C.judge(case, self.kinds) if f.kind in self.kinds]

    def search(self, budget, seed, failed):
        kept = []

        def cases():
            for c in self.cases(seed, failed):
                if len(kept) < 3: kept.append(c)
                yield c
        n, found = C.search(cases(), self.judge, budget)
        out = {"evaluations": n, "bound": "graphs of one or two rule instances with lists of at most 7 members and random graphs of at most 9 statements; bounded, not counted as proved",
               "rule": "each rule of the tables instantiated with fresh, identified, blank or literal terms, premises given, derived, dropped or unlinked; classes %s" % ", ".join(self.classes),
               "samples": [{"class": c.cls, "note": c.note, "triples": [C.show(t) for t in c.triples]} for c in kept], "violation": None}
        if found:
            case, f = found[0]
            small, f2 = C.minimise(case, self.judge, f.kind)
            f = f2 or f
            out["violation"] = {"input": small.json(), "text": "%s [class %s, input: %s]" % (f.text, small.cls, "; ".join(C.show(t) for t in small.triples))}
        return out

    def replay(self, data):
        fs = self.judge(C.Case.load(data))
        return fs[0].text if fs else None


class SearchProp(Prop):
    """a property with its own generator of cases (JSON values) and judge"""
    def __init__(self, pid, groups, module, rule, bound, **kw):
        super().__init__(pid, groups, **kw)
        self.module, self.rule, self.bound = module, rule, bound

    def mod(self):
        import importlib
        return importlib.import_module("pyvc." + self.module)

    def cases(self, seed):
        m = self.mod()
        if hasattr(m, "fixed"):
            yield from m.fixed()
        k = 0
        while True:
            yield m.gen(random.Random("%s-%d" % (seed, k)))
            k += 1

    def judge(self, case):
        return self.mod().judge(case)

    def search(self, budget, seed, failed):
        m = self.mod()
        kept = []

        def cases():
            for c in self.cases(seed):
                if len(kept) < 3: kept.append(c)
                yield c
        n, found = C.search(cases(), self.judge, budget)
        out = {"evaluations": n, "bound": self.bound + "; bounded, not counted as proved", "rule": self.rule, "samples": [str(k)[:600] for k in kept], "violation": None}
        if found:
            case, f = found[0]
            case, f = shrink(case, self.judge, f)
            out["violation"] = {"input": case, "text": "%s [input: %s]" % (f.text, str(case)[:1500])}
        return out

    def replay(self, data):
        fs = self.judge(data)
        return fs[0].text if fs else None


def shrink(case, judgef, f, seconds=20):
    """drops elements of lists in the case while the finding of that kind stays"""
    import copy, time
    t0 = time.time()

    def lists(x, path=()):
        if isinstance(x, dict):
            for k, v in x.items(): yield from lists(v, path + (k,))
        elif isinstance(x, list):
            if not path or path[-1] != "tuple": yield path
            for k, v in enumerate(x):
                if isinstance(v, dict): yield from lists(v, path + (k,))
    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        for path in list(lists(case)):
            def at(c):
                for k in path: c = c[k]
                return c
            try:
                n = len(at(case))
            except Exception:
                continue
            for i in range(n - 1, -1, -1):
                if time.time() - t0 > seconds: return case, f
                c2 = copy.deepcopy(case)
                try:
                    del at(c2)[i]
                    fs = [x for x in judgef(c2) if x.kind == f.kind]
                except BaseException:
                    fs = []
                if fs:
                    case, f, changed = c2, fs[0], True
    return case, f


PROPS = {}


def add(p):
    PROPS[p.pid] = p


DRIVER = ("driver: closure(), store_triple, add_error and flushing", driver.g_driver(list(C.CLASS.values())))


def driver_of(*classes):
    return ("driver: closure(), store_triple, add_error and flushing", driver.g_driver([C.CLASS[k] for k in classes]))


LIST_A = "list premises are read as the sequence Graph.items returns; lists are acyclic"
add(GraphProp("C01", [driver_of("OWLRL"), ("path lemmas", g_lemmas), ("completeness of the rules", g_rules("OWLRL", {"complete"}))], ["OWLRL"], {"missing"}, rules=C.OWL_T, assumptions=[LIST_A]))
add(GraphProp("C02", [driver_of("OWLRL"), ("path lemmas", g_lemmas), ("soundness of the rules", g_rules("OWLRL", {"sound"})), ("soundness of the one-time rules", dtphase.sound(["OWLRL"]))], ["OWLRL"], {"unsound"}, assumptions=[LIST_A],
              modes=["unlink", "drop", "plain", "swap", "unlink", "vocab", "value"]))
add(GraphProp("C03", [driver_of("OWLRL"), ("inconsistencies are reported", g_rules("OWLRL", {"false"}))], ["OWLRL"], {"unreported"}, rules=C.OWL_F, assumptions=[LIST_A], modes=["plain", "derived", "plain", "late"]))
add(GraphProp("C04", [driver_of("OWLRL"), ("errors only for inconsistencies", g_rules("OWLRL", {"error"}))], ["OWLRL"], {"spurious", "errornode"}, rules=C.OWL_F, assumptions=[LIST_A],
              modes=["unlink", "drop", "swap", "value", "vocab"]))
add(GraphProp("C05", [driver_of("RDFS"), ("completeness of the rules", g_rules("RDFS", {"complete"}))], ["RDFS"], {"missing"}))
add(GraphProp("C06", [driver_of("RDFS"), ("soundness of the rules", g_rules("RDFS", {"sound"})), ("soundness of the one-time rules", dtphase.sound(["RDFS"]))], ["RDFS"], {"unsound"}, modes=["unlink", "drop", "plain", "swap", "unlink", "vocab"]))
add(GraphProp("C07", [driver_of("BOTH", "EXT"), ("path lemmas", g_lemmas), ("combined closure", g_rules("BOTH", {"complete", "sound", "false", "error"})),
                      ("extended closure", g_rules("EXT", {"complete", "sound", "false", "error"})), ("soundness of the one-time rules", dtphase.sound(["BOTH", "EXT"]))],
              ["BOTH", "EXT"], {"missing", "unsound", "unreported", "spurious"}, assumptions=[LIST_A], budget=12))

add(SearchProp("C08", [DRIVER], "bdriver", "random rule systems (phases storing, adding, recording errors; rules with one or two premises) as user defined closure classes against a reference fixpoint",
               "at most 5 premises-rules plus a chain of 7, 5 triples per phase", assumptions=["user defined phases only store triples, record errors and add triples; they do not remove triples or call closure()"]))

KEYS = ["OWLRL", "RDFS", "BOTH", "EXT", "TRIM"]


def g_empty_store(led):
    driver.store_empty_obligations(led)


add(SearchProp("C09", [DRIVER, ("what the constructor and the phases write and remove", phases.frame(KEYS))], "bframe9",
               "random graphs and data sets (properties of properties, chains, hasValue, blank and literal terms anywhere), every class and kind of destination",
               "at most 11 statements, one named graph", assumptions=["the graph methods the code calls behave as RDFLib documents them (listed under trusted)"]))
add(SearchProp("C10", [DRIVER, ("no triple waits when post_process starts", g_empty_store), ("predicates of what is added", phases.generalized(KEYS))], "bframe10",
               "random graphs with blank and literal terms in the places from which rules take predicates", "at most 11 statements",
               assumptions=["members of a list (as Graph.items yields them) are objects of rdf:first triples"]))
add(SearchProp("C11", [DRIVER, ("what the axiom phases add", phases.requested_axioms(KEYS))], "baxioms",
               "random graphs with predicates that are or resemble container membership properties, all flags and classes", "at most 6 statements",
               assumptions=["_container_index (a regular expression match) is an uninterpreted function of the predicate in the proof; the concrete search compares it on numerals with signs, leading zeros, other digits and suffixes"]))

EQ = {"eq-sym", "eq-rep-s"}
NO_REDEF = "the graph does not redefine a supported datatype as a restricted datatype"
CONV_A = "conversions are functions of the lexical form that return or raise ValueError (C13 and C22 decide what they accept)"
add(SearchProp("C12", [DRIVER, ("what the one-time rules store and record", dtphase.typing(["OWLRL", "BOTH", "EXT", "TRIM"])),
                       ("nothing else is typed", dtphase.sound(["OWLRL", "BOTH", "EXT"])), ("equal terms share their types", dtphase.shared_types),
                       ("completeness of eq-sym and eq-rep-s", g_rules("OWLRL", {"complete"}, EQ)), ("completeness of eq-sym and eq-rep-s (combined)", g_rules("BOTH", {"complete"}, EQ)),
                       ("completeness of eq-sym and eq-rep-s (extended)", g_rules("EXT", {"complete"}, EQ))], "bdatatypes",
               "random graphs of literals of supported and other datatypes, typed terms and sameAs statements", "at most 9 statements", assumptions=[NO_REDEF, CONV_A]))
add(SearchProp("C16", [DRIVER, ("no triple waits when post_process starts", g_empty_store), ("trimming against the extension class", phases.trimming)], "btrim",
               "random graphs around the vocabulary that trimming looks at, both classes on the same graph", "at most 16 statements", assumptions=[NO_REDEF]))
add(SearchProp("C18", [driver_of("RDFS"), ("exchange of literals of the same value", phases.exchange)], "bequal",
               "random graphs with literals of 26 kinds, some of the same value", "at most 8 statements",
               assumptions=["Python's == on converted values is an equivalence relation (identical literals are exchanged in any case)", "Literal.value is a function of the literal"]))
add(SearchProp("C14", [("facets are met exactly", pfacets.facets), ("definitions of datatypes", pextract.extracted), ("accepted literals are typed", dtphase.restricted), ("soundness of the one-time rules", dtphase.sound(["EXT"])),
                       ("rejected literals are reported", g_rules("EXT", {"facets", "complete"}, {"facets", "cls-avf"}))], "bfacets",
               "random facet lists and values of every facetable base type, directly and in the extended closure", "at most 4 facets, 5 values", assumptions=[
                   "Graph.items and Graph.predicate_objects yield the members of a list and the facets of a member (contracts of RDFLib)", "an allValuesFrom check that raises (values that cannot be compared with a facet) counts as acceptance, as the code documents"]))
add(SearchProp("C21", [driver_of("OWLRL", "RDFS", "BOTH", "EXT", "TRIM")] + [("rules of %s raise nothing" % k, praise.rules(k)) for k in ("OWLRL", "RDFS", "BOTH", "EXT", "TRIM")] +
               [("phases and constructors raise nothing", praise.others(["OWLRL", "RDFS", "BOTH", "EXT", "TRIM"])), ("reading restricted datatypes raises nothing", pextract.extracted),
                ("conversions raise only ValueError", plex.lexical), ("conversions of dates and times raise only ValueError", ptime.times)], "braise",
               "random graphs with literals (ill-typed, untyped, odd), blank nodes, odd URIs, empty and dangling lists in every position, by every class; lists of 1300 members", "random graphs of at most 17 statements", assumptions=[
                   LIST_A, "RDFLib's operations on terms, literals and graphs return (Graph.items on acyclic lists; == on converted values, which fails for the literal sNaN, see known_findings.txt)",
                   "Python's recursion limit and memory are not exceeded (lists of 1300 members by bounded search)"]))
add(SearchProp("C15", [("extended filtering", plang.lang)], "blang", "random ranges and tags, half of the tags made from the range by inserting and dropping subtags", "at most 5 subtags in the range, 20 in the tag"))
add(SearchProp("C13", [("lexical conversions", plex.lexical)], "blex", "numerals near the limits of every datatype, with signs, leading zeros and long fractions, special values, hexadecimal strings and odd strings through every conversion",
               "numerals of at most 80 digits", trusted=["%s: %s" % kv for kv in pstr.TRUST.items()], assumptions=["numerals have at most 4300 digits, exponents at most 17 (limits of Python's int and Decimal)"]))
add(SearchProp("C22", [("dates and times", ptime.times)], "btime", "dates and times with border fields, fractions of up to 12 digits and every kind of offset", "fractions of at most 12 digits",
               trusted=["%s: %s" % kv for kv in ptime.TRUST.items()]))
add(SearchProp("C17", [("process-wide state", pglobal.globals_)], "bglobal", "sequences of expansions of random graphs by every class, some failing in the constructor or a phase (also by KeyboardInterrupt), against the state before and a probe graph expanded before and after",
               "at most 3 expansions", trusted=["dict(), list(), copy, clear, update and slice assignment of tables"], assumptions=[
                   "closure classes change the four tables arbitrarily, but not the lists inside OWL_Datatype_Subsumptions (shown for the package by the frame condition) and not the conversion switch",
                   "the frame condition is a flow-insensitive alias analysis of every write in the package (module variables, class attributes, default arguments, caching decorators)", "expansion is a function of the graph and the process-wide state"]))
add(SearchProp("C19", [("owl:imports", pimport.imported)], "bimport", "import structures of documents in a scratch directory (several formats, URIs and file names), with cycles, diamonds, self imports and chains",
               "at most 31 documents", trusted=["Graph.triples yields exactly the statements that match, Graph.remove removes exactly those, parsing a document only adds the statements of that document", "__parse_input reads the document it is given (proved under C20)"], assumptions=[
                   "the import structure is finite and no document changes while it is read", "a document is identified by the text of the import statement's object"]))
add(SearchProp("C20", [("entry points", pentry.entry)], "bentry", "conversions of files in a scratch directory with every flag in every spelling, input and output format, suffix, extra source, text, standard input and explicit class, against the same steps done directly",
               "at most 4 sources", trusted=["%s: %s" % kv for kv in pstr.TRUST.items()] + ["Graph.parse reads the given document in the given format, Graph.serialize writes the given format"], assumptions=[
                   "options are given as one of %s" % pentry.SPELLINGS, "sources are strings, and there is a source or a text that is not blank", "interpret_owl_imports is proved under C19, the closure classes under C01 to C12"]))
