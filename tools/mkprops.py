import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
OWL="owlrl/OWLRL.py";CL="owlrl/Closure.py";RD="owlrl/RDFSClosure.py";CO="owlrl/CombinedClosure.py";EX="owlrl/OWLRLExtras.py";DH="owlrl/DatatypeHandling.py";RE="owlrl/RestrictedDatatype.py";IN="owlrl/__init__.py";AX="owlrl/AxiomaticTriples.py";XD="owlrl/XsdDatatypes.py"
p("C01","OWL 2 RL closure is complete for the profile's triple rules",
"After an OWL 2 RL expansion, the output graph is closed under every triple-producing rule of Tables 4-7 and 9 of the OWL 2 RL profile (eq-*, prp-*, cls-*, cax-*, scm-*): whenever all premises of a rule instance are in the output, its conclusion is too. Exempt are only the conclusions that say a term is a subclass, subproperty or equivalent of itself, triples whose predicate would be a literal or a blank node, and the error report nodes; a list premise is read as the item sequence RDFLib returns for the (acyclic) list.",
["inputs"],"every input graph and every instance of every rule, with any number of list members, keys and chain links",
"The tests sample a handful of rules on one tiny graph each, about 20 of the ~60 rules; none quantifies over graphs, variable identifications, list lengths or rule interaction.",
[OWL,CL],[("rule groups dispatched per triple","OWLRL_Semantics.rules, _equality, _properties, _classes, _class_axioms, _schema_vocabulary, _property_chain"),("fixpoint loop","Core.closure")],["the graph after DeductiveClosure(OWLRL_Semantics).expand(g)"])
p("C02","OWL 2 RL closure is sound: nothing is added that the rules do not entail",
"Every triple an OWL 2 RL expansion adds (error reports and requested axiomatic triples aside) is contained in every graph that contains the input and those axioms and is closed under the OWL 2 RL rules, including the datatype typing, datatype hierarchy and annotation property axioms of the profile; the documented reading of RDF.Property like an OWL property in scm-op/scm-dp is included.",
["inputs"],"every input graph, every rule application in every cycle",
"A test checks that expected triples appear; no finite set of tests can show that no other triple ever appears.",
[OWL,CL,XD],[("each rule only stores its conclusion under its premises","OWLRL_Semantics._equality, _properties, _classes, _class_axioms, _schema_vocabulary, _one_time_rules_misc, _one_time_rules_datatypes")],["the graph after expand minus the graph before"])
p("C03","Every OWL 2 RL inconsistency present in the closure is reported",
"If the premises of a rule of the OWL 2 RL profile whose conclusion is 'false' (eq-diff1-3, prp-irp, prp-asyp, prp-pdw, prp-adp, prp-npa1-2, cls-nothing2, cls-com, cls-maxc1, cls-maxqc1-2, cax-dw, cax-adc) hold in the output graph of an OWL 2 RL expansion, the output contains an ErrorMessage node carrying a message. For eq-diff2/3 and list based rules any two positions of the list count, whatever its length; a pair of identical terms in an AllDifferent list is not an inconsistency.",
["inputs"],"every input graph, list length and pair of list positions",
"Existing tests cover a few 'false' rules with lists of three and never the last pair, two-member lists or more than one list.",
[OWL,CL],[("add_error calls in the rules","OWLRL_Semantics"),("error nodes written at the end","Core.closure")],["agent:ErrorMessage nodes in the output"])
p("C04","No inconsistency is reported for a consistent closure",
"An OWL 2 RL expansion writes an ErrorMessage node only if the premises of one of the profile's 'false' rules hold in every rule-closed graph containing the input (so in the closure), or a literal of the input is ill-typed for its declared supported datatype; each ErrorMessage node carries its own message and no other triple.",
["inputs"],"every input graph",
"Tests only assert on the presence of errors for chosen inconsistent graphs; absence over all consistent graphs is universal.",
[OWL,CL],[("guards of the add_error calls","OWLRL_Semantics"),("error node writing","Core.closure")],["agent:ErrorMessage nodes in the output"])
p("C05","RDFS closure is complete for the RDFS entailment rules",
"After an RDFS expansion the output graph is closed under rdf1 (predicates are properties), rdfs2, rdfs3, rdfs5-rdfs13, and every subject and object of a triple of the graph the rules start from (input plus requested axioms) and every subject and object of the output is typed rdfs:Resource (rdfs4a/4b). Exempt are only triples whose predicate would be a literal.",
["inputs"],"every input graph and rule instance",
"test_rdfs_closure and the old tests sample three rules on fixed graphs.",
[RD,CL],[("RDFS rules","RDFS_Semantics.rules"),("fixpoint loop","Core.closure")],["the graph after DeductiveClosure(RDFS_Semantics).expand(g)"])
p("C06","RDFS closure is sound",
"Every triple an RDFS expansion adds (requested axiomatic triples aside) is contained in every graph that contains the input and those axioms and is closed under the RDF/RDFS entailment rules rdf1 and rdfs2-rdfs13 and under exchange of object literals that denote the same value.",
["inputs"],"every input graph, every rule application in every cycle",
"Absence of unentailed triples over all graphs cannot be sampled.",
[RD,CL],[("RDFS rules and one-time literal rule","RDFS_Semantics.rules, one_time_rules")],["the graph after expand minus the graph before"])
p("C07","The combined and extended closures implement exactly their documented rule sets",
"The combined closure is complete for the RDFS and the OWL 2 RL rules together and the extended closure for the OWL 2 RL rules plus both directions of the hasSelf rule, and for the RDFS rules exactly when RDFS inference is requested; both contain the documented triples identifying Thing with Resource, the two Class terms, and DataRange with Datatype. They add nothing that those rule sets, the binding triples, the requested axioms and the facet checks of restricted datatypes do not entail.",
["inputs","configurations"],"every input graph and both values of the RDFS flag",
"Two tests run the combined class on one graph; the extension has one hasSelf-free test.",
[CO,EX,RD,OWL],[("delegation of rules/axioms/one-time rules","RDFS_OWLRL_Semantics, OWLRL_Extension")],["output graphs of the combined and extension classes"])
p("C08","The forward-chaining driver reaches a fixpoint for any set of rules",
"For any closure class, including user-defined subclasses, expansion runs the pre-processing, requested axioms, one-time rules, rule cycles and post-processing in that order; the rule cycles end only when a full pass over every triple of the graph has stored nothing new, every triple stored in any phase (with a non-literal predicate) is in the graph when the next phase starts, and every recorded error is written out exactly once. Each cycle except the last adds at least one new triple, so expansion terminates whenever the rules create no new terms.",
["inputs","programs","histories"],"every rule set (opaque subclass hooks), every graph, any number of cycles",
"Tests exercise only the shipped rule sets on small graphs with few cycles.",
[CL],[("driver","Core.closure, store_triple, flush_stored_triples, empty_stored_triples, add_error")],["order of hook calls and graph contents at each"],[("added_triples","triples derived but not yet in the graph","Core"),("error_messages","distinct messages so far","Core")])
p("C09","Expansion preserves its input and writes only to its destination",
"Expansion never removes a triple of the input unless its predicate is a blank node (or the trimming class was asked for), and never adds triples to any graph other than the destination: the graph itself, the default graph of a dataset, or the named or same-store graph that was given. A destination backed by a different store, or a name given for a plain graph, is refused before anything is written.",
["inputs","configurations"],"every input graph or dataset, every destination, every closure class",
"Tests check one destination of each kind for the presence of a triple; never that all other graphs are untouched.",
[CL,OWL,EX],[("destination selection","Core.__init__"),("writes go through the destination","Core.store_triple, flush_stored_triples, closure; add_axioms; post_process")],["all graphs of the store before and after"])
p("C10","The output contains no generalized triples",
"Expansion never adds a triple with a literal as predicate, and after an OWL 2 RL based expansion no triple of the output has as predicate a blank node, whether the triple was in the input or derived during any cycle.",
["inputs"],"every input graph, including generalized ones",
"Only one test touches blank nodes in predicate position through inverseOf.",
[CL,OWL],[("literal predicate filter","Core.store_triple"),("blank node predicate removal","OWLRL_Semantics.rules, post_process")],["predicates of the output graph"],[("bnodes","blank nodes of the graph when cycling starts","OWLRL_Semantics")])
p("C11","Axiomatic triples appear exactly when requested and are the standard ones",
"With axiomatic (or datatype axiomatic) triples requested, the output contains all of the closure class's axiomatic (datatype) triples; without the request none of them is added by the axiom phase. The RDFS axioms are those of the RDF and RDFS semantics, and the container axioms are added for rdf:_1 to rdf:_n where n is the largest index of a container membership property used as predicate in the graph.",
["inputs","configurations"],"every input graph, all four flag combinations, every closure class",
"No test checks the axiom tables or any rdf:_n gap or repetition.",
[CL,RD,OWL,CO,EX,AX],[("axiom phases","add_axioms, add_d_axioms"),("index computation","Core.__init__"),("tables","AxiomaticTriples.py")],["output graph with each flag combination"],[("IMaxNum","largest container membership index","Core")])
p("C12","Datatype typing, hierarchy and ill-typed literal reporting",
"In an OWL 2 RL based expansion of a graph that does not itself redefine a supported datatype, every literal occurring as an object in the graph that has a supported datatype is typed with that datatype and all datatypes that contain its value space in the XSD hierarchy, every supported datatype is typed as datatype, a term (other than such a literal) explicitly typed with a supported datatype, or declared the same as a term so typed, is typed with the containing datatypes; the hierarchy table is exactly the derivation order of XML Schema on the supported types. A literal whose lexical form its datatype's conversion rejects is reported as an error, one it accepts is not.",
["inputs"],"every graph and literal",
"One test checks a few datatypes on one graph; the hierarchy table is not tested.",
[OWL,XD],[("one-time datatype rules","OWLRL_Semantics._one_time_rules_datatypes"),("hierarchy table","OWL_Datatype_Subsumptions")],["rdf:type triples and errors of the output"])
p("C13","Improved lexical conversions accept exactly the right numbers",
"For the bounded XSD integer types the improved conversion of a lexical form (of at most 4300 digits) returns the integer it denotes exactly when that lies in the type's value range and raises ValueError otherwise; the boolean, decimal and hexBinary conversions return the denoted value for every lexical form of the type, hexBinary rejecting strings of odd length, and the double and float conversions return the denoted value for every lexical form that denotes zero, an infinity, NaN or a number whose magnitude lies within the documented range (1e-330 to 1e310, 1e-50 to 1e40), with any sign (and an exponent of at most 17 digits); the owl:rational conversion of the extended closure returns numerator/denominator for an integer, a slash and an unsigned positive denominator, and rejects a signed or non-positive denominator and more than one slash. Every improved conversion signals a string it rejects by ValueError and by no other exception.",
["inputs"],"every string and every integer, all bounds",
"The tests convert no boundary values; ranges are unbounded in number.",
[DH,EX],[("rationals","_strToRational"),("range check","_strToBoundNumeral and the _limits_* tables"),("converters","AltXSDToPYTHON and the _strTo* functions")],["AltXSDToPYTHON[dt](lexical form)"])
p("C14","Restricted (faceted) datatypes accept exactly the values within their facets",
"A restricted datatype accepts a value of its base type exactly when the value satisfies every facet stated for it, however many times and in whatever order each facet is given: the tightest inclusive and exclusive bounds and lengths, every pattern (as a match of the whole string), and every language range (which a value without language tag never matches); the facet kinds are applied according to the base type, and facet values are assumed comparable with the values of the base type. In the extended closure a literal of the base type is typed with the restricted datatype exactly when it is accepted, and an allValuesFrom restriction to a restricted datatype reports an error for a literal of the base type it rejects, rather than typing it.",
["inputs"],"every facet list (length, order, repetition) and every value",
"The single faceted test uses one facet of a kind with two values.",
[RE,EX],[("facet collection","RestrictedDatatype.__init__"),("checks","RestrictedDatatype.checkValue, _check_*"),("typing","OWLRL_Extension._subsume_restricted_datatypes, restriction_typing_check")],["RestrictedDatatype(...).checkValue(v), output graph"])
p("C15","Language range matching is RFC 4647 extended filtering",
"A language range matches a language tag exactly when RFC 4647 extended filtering (section 3.3.2) says so, for ranges and tags with any number of subtags; matching is case-insensitive and always terminates.",
["inputs"],"every range and tag with any number of subtags",
"No test covers it; wildcard and singleton subtags in any position are unbounded combinations.",
[RE],[("extended filtering loop","_lang_range_check")],["_lang_range_check(range, tag)"])
p("C16","Trimming removes exactly the documented triples",
"The trimming closure's output is the extension closure's output minus precisely the documented triples: reflexive sameAs/equivalentClass/subClassOf/subPropertyOf, subclass of Thing or Resource, typed as Resource, Nothing subclass of anything, the typing and disjointness of supported datatypes that type nothing, the annotation property axioms, and the listed axioms on Thing, Nothing, Resource, Class and DataRange; every other triple stays.",
["inputs"],"every graph reached by the closure",
"One test checks the presence/absence of one or two triples after trimming.",
[EX],[("trimming","OWLRL_Extension_Trimming.post_process")],["output with and without trimming"])
p("C17","Expansion leaves no trace in process-wide state, even when it fails",
"After an expansion with default settings, normally or by an exception at any point, RDFLib's datatype conversion table and the package's tables of supported datatypes, datatype hierarchy and conversions are what they were before; so expanding a graph gives the same result whatever was expanded before it in the same process. When improved conversions are switched on globally they stay in force across expansions until switched off.",
["histories","fault_sequences","configurations"],"every sequence of expansions with any settings, exceptions raised at any point inside the closure",
"Each test runs one expansion in a fresh setting; nothing checks the table after an exception or for the second graph.",
[IN,DH,EX,CO],[("switch and restore","DeductiveClosure.expand, use_Alt_lexical_conversions, use_RDFLib_lexical_conversions"),("registration","RDFS_OWLRL_Semantics.add_new_datatype")],["rdflib.term._toPythonMapping, OWL_RL_Datatypes, OWL_Datatype_Subsumptions, AltXSDToPYTHON"])
p("C18","Equal-valued literals are interchangeable objects in RDFS",
"At the start of rule processing of an RDFS expansion, for any two literals occurring as objects whose converted values are equal (or, without values, which are the same literal), every triple with one as object also occurs with the other, and no triple is duplicated to a literal whose converted (Python) value is different.",
["inputs"],"every graph with any number of literals",
"No test covers literal value equality.",
[RD],[("one-time literal rule","RDFS_Semantics.one_time_rules, _literals_same_as, _literals")],["output graph"])
p("C19","owl:imports are followed transitively and processing terminates",
"Interpreting imports merges every directly or transitively imported document into the graph, removes the import statements, keeps every other triple, and terminates for every import structure, including documents that import themselves or each other.",
["inputs","fault_sequences"],"every (finite) import structure, including cyclic ones",
"No test covers imports.",
[IN],[("import loop","interpret_owl_imports")],["the graph after interpret_owl_imports"])
p("C20","Entry points honour their options",
"Class selection returns the documented closure class for every combination of the OWL, RDFS, extras and trimming options; the conversion entry point expands with that class (or the explicitly given one) and the axiom, datatype-axiom and RDFS flags it was given in any accepted spelling, reads every source and text it was given in the requested input format (or the one implied by the file suffix), follows imports exactly for OWL processing, and serializes in the requested output format.",
["configurations","inputs"],"all combinations of options, spellings and source lists",
"Tests never call convert_graph; only the CLI's help is exercised.",
[IN],[("selection","return_closure_class"),("conversion","convert_graph")],["return_closure_class(...), calls made and string returned by convert_graph"])
p("C21","Expansion never fails on a graph",
"Expansion of any graph with acyclic lists by any shipped closure class raises no exception, whatever terms occur in any position: literals or blank nodes as subjects, objects of cardinality, list, key or datatype statements, ill-typed or untyped literals, empty or dangling lists (RDFLib's own operations on terms are assumed to return, which they do not for the literal \"sNaN\"^^xsd:decimal).",
["inputs"],"every graph, every position of every term kind",
"Tests only use well-formed vocabulary use.",
[OWL,RD,CO,EX,CL,DH],[("no partial operation on graph terms is unguarded","rules and one_time_rules of all classes")],["expand() returning normally"])
p("C22","Date and time literals denote the right instant",
"The improved dateTime, dateTimeStamp, time and date conversions return, for every lexical form whose fields Python's datetime can represent (years 1 to 9999, hours up to 23), the instant it denotes: the stated fields, fractional seconds as decimal fraction (to the microsecond, further digits dropped), and a UTC offset of exactly the signed hours and minutes given (any sign), which a date drops; dateTimeStamp requires an offset.",
["inputs"],"every lexical form, offset and fraction",
"No test converts a date with an offset or fraction.",
[DH],[("time zone extraction","_returnTimeZone"),("field assembly","_strToDateTimeAndStamp, _strToTime, _strToDate")],["AltXSDToPYTHON[xsd:dateTime](lexical form)"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
