TECH = "deductive verification: verification conditions generated from the real Python source, discharged by z3/cvc5"
R = "Every obligation is proved for all graphs, terms and list lengths; assumed: the listed contracts of RDFLib, acyclic lists, the executor's reading of the Python subset. "
CLAIMED = {
 "C01": {"note": R + "Completeness of every rule of the tables against what the rule methods store."},
 "C02": {"note": R + "Every store_triple call only stores a conclusion of the rule tables."},
 "C03": {"note": R + "Every 'false' rule whose premises hold reaches an add_error call."},
 "C04": {"note": R + "Every add_error call implies the premises of a 'false' rule."},
 "C05": {"note": R + "As C01, for the RDFS rules."},
 "C06": {"note": R + "As C02, for the RDFS rules."},
 "C07": {"note": R + "As C01 to C04 for the combined and the extended closure, with and without RDFS inference."},
 "C08": {"note": R + "closure() is executed symbolically with the phases as contracts (any rule system); loop invariant by arbitrary head state."},
 "C09": {"note": R + "Each phase's stores, graph operations and constructor of every rule class only add; the RDFS/OWL frame, option flags, containers."},
 "C10": {"note": R + "Every triple a phase leaves in the destination is an RDF triple when the inputs are; post_process removes exactly the triples it must."},
 "C11": {"note": R + "Axiomatic triples of every rule class, flag by flag, against frozen tables, both directions."},
 "C12": {"note": R + "One-time rules executed symbolically: typing, hierarchy (every pair), errors iff the table's conversion raises; sameAs by a lemma over eq-sym and eq-rep-s. Assumed: no supported datatype is redefined by the graph."},
 "C16": {"note": R + "post_process of both classes compared on one arbitrary state; the other methods are the same code or proved equivalent."},
 "C18": {"note": R + "one_time_rules stores a triple exactly when a literal of equal value occurs; == on values read as an equivalence."},
 "C14": {"note": R + "Induction over the facet list: one turn of the facet loop from an arbitrary object state is compared with checkValue before and after; values are read as a total order, patterns as Python regular expressions. extract_faceted_datatypes is executed on an arbitrary graph: each loop for an arbitrary element, what it appends as a comprehension."},
 "C13": {"note": R + "Every entry of AltXSDToPYTHON is executed on a symbolic string (z3 strings; the lexical spaces as regular languages); int, Decimal, unhexlify, re by contract."},
 "C22": {"note": R + "The conversions are executed on every layout of the lexical form (fractions of any length) with symbolic digits; strptime, the datetime constructors and timedelta by contract."},
 "C17": {"note": R + "expand is executed with symbolic table contents and an arbitrary closure class that changes the tables and may fail; everything else in the package writes no process-wide state (frame condition by alias analysis); the switches are checked on the real tables."},
 "C19": {"note": R + "One turn of the import loop from an arbitrary graph and set of documents read, the inner loops for an arbitrary statement; termination by the count of unread documents; reading a document by contract (C20)."},
 "C20": {"note": R + "return_closure_class, __parse_input, convert_graph and DeductiveClosure are executed with symbolic options (every spelling), file names, formats and texts; the loop over the sources for an arbitrary source; RDFLib's parse and serialize by contract."},
 "C21": {"note": R + "Every point of the rules, phases, constructors and the driver at which the executed code could raise (subscripts, missing keys and attributes, unpacking, calls of conversions, comparisons, formatting) is unreachable; conversions raise ValueError only, which the callers catch."},
 "C15": {"note": R + "Loop invariant and variant of _lang_range_check against the recursive definition of RFC 4647 filtering, for any number of subtags; str.lower/strip/split by contract (ASCII)."},
}
NA = {}
