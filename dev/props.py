"""The properties: statement, quantifier, anchors and level notes."""

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, qtext, why, files, mech, note, domain=None, state=None, observe=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None,
                    **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                    **({"observe_at": observe} if observe else {})},
        "domain": domain, "note": note})


ENG = ("The source is parsed on every run and interpreted over abstract values; the repository is never imported or executed. "
       "Trusted: the transfer functions of the interpreter and the models of attrs, sortedcontainers, immutablecollections "
       "and the standard library. ")
RNG = "vistautils/range.py"

P("C01", "Range membership follows its bounds exactly",
  "For every range built by any factory and any value of its ordered element type, the value is contained if and only if it "
  "lies strictly inside the endpoints or equals an endpoint whose bound is closed. Factories refuse endpoints in the wrong "
  "order (and an open range with equal endpoints) with ValueError, asking whether None is contained is a ValueError, and the "
  "endpoint, bound-type, has-bound and emptiness accessors report the bounds the range was built with.",
  ["inputs"], "all ranges (nine factories) over any totally ordered element type, all probe values",
  "Tests use a few integer ranges and probes; the claim is for every order type of endpoints and probe and every element type.",
  [RNG], [("Range factories and __contains__", RNG), ("lower/upper cuts' less-than test", RNG)],
  ENG + "Exhaustive over order types of two endpoints and one probe, which is complete for code that touches elements only "
  "through comparisons (any other operation on an element is reported).", "order types", observe=["Range.__contains__"])
P("C02", "Range algebra agrees with sets of points",
  "For any two ranges, encloses, connectedness, equality, hash, span and intersection agree with their definition on the "
  "ordered bounds: span is the smallest range enclosing both, intersection the largest enclosed by both and ValueError when "
  "the ranges are not connected. The spanning range of any non-empty collection of ranges is their hull and of an empty "
  "collection ValueError. A copied or unpickled range equals, hashes as and behaves as the original.",
  ["inputs"], "all pairs of ranges, all collections of ranges, over any totally ordered element type",
  "The pairs of bound kinds and relative positions number in the thousands, tests try a few dozen with integers.",
  [RNG], [("Range.encloses/is_connected/span/intersection", RNG), ("Range.create_spanning", RNG), ("cut comparison", RNG)],
  ENG + "Pairs are exhaustive over order types; collections up to three members.", "order types")
P("C04", "A mutable range set is always the coalesced union of what was added",
  "After any sequence of add, bulk add and clear, a range set's members are exactly the maximal disjoint, non-connected, "
  "non-empty ranges whose union is the union of all ranges added since the last clear, in ascending order; adding an empty "
  "range changes nothing. Add operations return the set itself; size, emptiness and span agree with the members, the span of "
  "an empty set is a ValueError, and building an immutable set from the same ranges gives the same members.",
  ["histories", "inputs"], "all add/bulk add/clear histories over any totally ordered element type",
  "Coalescing depends on the relative position of the new range to every existing member; tests sample a few histories.",
  [RNG], [("add and coalescing in the sorted-dict range set", RNG), ("ImmutableRangeSet builder", RNG)],
  ENG + "Inductive step: from every canonical set of at most two members over five endpoint ranks and of three or four (six in "
  "thorough) members on spread ranks, adding every range; larger sets rest on the small-scope argument that one add touches "
  "members only through comparisons with its two bounds.", "order types with an inductive step over canonical states",
  state=[("ranges by lower bound", "sorted map from lower cut to member range", RNG)])
P("C05", "Every range-set query agrees with its definition over the members",
  "For any range set and any value, containment, the containing range, the rightmost member containing or below the value and "
  "the leftmost member containing or above it are those defined by the members, and None is returned when there is none. For "
  "any query range, encloses, the enclosing member, the members enclosed by it, whether it shares a non-empty part with a "
  "member, and the members connected to it are exactly those defined by the members. Queries never change the set.",
  ["inputs", "histories"], "all range sets, all probe values, all query ranges (bounded or not, empty or not)",
  "Tests probe a handful of sets; off-by-one-cut mistakes show only at particular coincidences of bounds.",
  [RNG], [("sorted-dict lookups by cut", RNG), ("ranges_enclosed_by / ranges_overlapping / intersects", RNG)],
  ENG + "All canonical sets of at most two members over five ranks (three to five on spread ranks), every probe and query "
  "range, mutable and immutable.", "order types")
P("C06", "Range sets are values: equality, hashing, copying and isolation",
  "Two range sets are equal exactly when they have the same members, whatever their mutability or history, and equal sets "
  "hash alike. A copied or unpickled range set equals the original and answers all queries as it does. Immutable copies and "
  "built sets never change when the mutable set or builder they came from is used further, and immutable sets offer no "
  "mutation.",
  ["inputs", "histories"], "all pairs of range sets, all histories of mutation after a copy",
  "Tests pickle one bounded set and compare a few sets.",
  [RNG], [("RangeSet equality and hash", RNG), ("immutable_copy, builder, reduce protocol", RNG)],
  ENG + "All canonical sets of at most two members over three ranks (a third of the two-member sets).", "order types, aliasing")
P("C07", "Range map lookup agrees with its keys",
  "An immutable range map built from any pairs of disjoint, non-connected, non-empty key ranges returns for a value the value "
  "of the one key containing it, None otherwise; its rightmost/leftmost lookups return the value of the key nearest on that "
  "side, and lookup by query range returns exactly the values of the keys enclosed by it. Connected, overlapping or empty keys "
  "are refused with ValueError whatever order they are given in. Equality, hash and copies follow the mapping, and the map is "
  "frozen.",
  ["inputs"], "all sets of key ranges in all insertion orders, all probe values and query ranges",
  "Tests use one or two maps of integers.",
  [RNG], [("RangeMap lookups", RNG), ("ImmutableRangeMap construction check", RNG)],
  ENG + "All canonical key sets of at most two ranges over four ranks and three on spread ranks, in every insertion order.",
  "order types, opaque values")
SP = "vistautils/span.py"
PA = "vistautils/parameters.py"
IO = "vistautils/io_utils.py"
KV = "vistautils/key_value.py"

P("C08", "Spans are half-open intervals and every operation agrees with that",
  "A span can be built only with start < end and covers exactly the offsets start <= o < end. Containment of offsets and spans, "
  "overlap, strict precedence and following, intersection (None when disjoint), shift, clipping to an enclosing span, length, "
  "conversion to an index range and the slice of a text agree with that definition, refusing (ValueError) what the definition "
  "does not allow; the minimal enclosing span of any non-empty collection, also a one-shot iterable, runs from the smallest "
  "start to the largest end. Ordering helpers order as documented, and equality and hash follow the offsets.",
  ["inputs"], "all pairs of spans at all offsets, negative ones included", "Tests use a dozen literal pairs of offsets.",
  [SP], [("Span methods", SP), ("HasSpan", SP)],
  ENG + "Offsets are linear expressions over unknown gaps, so each scenario covers all offsets in that relative position; gaps "
  "are one or more than one.", "linear integer expressions over symbolic gaps")
P("C09", "Span index lookups return exactly the items their definition names",
  "For any collection of items with spans and any query span, an overlapping span index returns exactly the items that equal, "
  "overlap, lie in or contain the query, and a disjoint span index exactly the item with that span, containing it or "
  "overlapping it, or lying in it. Building a disjoint index from overlapping items, or from different items with the same span, "
  "is a ValueError; no item is lost.",
  ["inputs"], "all item collections and all query spans", "Tests build one or two indices.",
  [SP], [("SpanIndex, DisjointSpanIndex, OverlappingSpanIndex", SP)],
  ENG + "Sets of up to two items (sampled triples) over all spans between five symbolic offsets, all query spans.",
  "linear integer expressions over symbolic gaps")
P("C10", "Rendering annotations keeps the text and nests the tags",
  "For any text window and annotations, rendering yields the window's characters in order, complete and unchanged, with an "
  "opening and a closing tag for every annotation overlapping the window at its clipped offsets, tags of nested or identical "
  "annotations properly nested, nothing for annotations outside the window; empty text renders as the empty text.",
  ["inputs"], "all texts, windows and sets of annotations", "Tests render four fixed examples.",
  ["vistautils/annotated_text_utils.py"], [("HTMLStyleAnnotationFormatter", "vistautils/annotated_text_utils.py")],
  ENG + "Texts of up to five distinct opaque characters, all pairs and sampled triples of annotations. Annotation attributes "
  "can only be given as immutabledict because the installed immutablecollections refuses dict.", "opaque characters")
P("C11", "A typed parameter accessor returns a value of its type or refuses",
  "For every parameter tree, name and accessor: if the name is present and the value has the accessor's type (and satisfies "
  "the given options, range or enum), exactly that value is returned; if it has any other type or fails the restriction, "
  "ParameterError. If it is absent, the plain accessor raises ParameterError and the optional one returns None; membership and "
  "has_namespace agree. Falsy values are values. assert_exactly_one_present raises unless exactly one name is present.",
  ["inputs"], "all parameter trees, names, accessors and restrictions", "The accessor by value-kind table has hundreds of cells; "
  "tests visit some, none with all falsy values.",
  [PA], [("Parameters typed accessors", PA)],
  ENG + "All accessors by all kinds of value at depth one to three.", "opaque tokens and value kinds")
P("C12", "Defaults apply exactly when a parameter is absent",
  "For every accessor taking a default, required or optional: when the parameter is absent the very default is returned, falsy "
  "defaults included; when it is present the default plays no part, not even to hide a value of the wrong type. A default of the "
  "wrong type or outside the permitted options or range is refused with ParameterError.",
  ["inputs"], "all accessors, defaults and parameter trees", "Tests use truthy defaults.",
  [PA], [("default handling in Parameters.get/get_optional/enum", PA)],
  ENG + "All accessors by all kinds of default and value.", "opaque tokens and value kinds")
P("C13", "Path accessors create and delete exactly what they promise",
  "creatable_directory makes the directory and its parents and keeps any contents; creatable_file makes only the parents; "
  "creatable_empty_directory yields an empty existing directory, and deletes earlier contents only when told to (otherwise "
  "refuses); existing_file and existing_directory change nothing and refuse what is absent or of the other kind. Results are "
  "absolute. Nothing else in the file system is created, changed or deleted, and refusals change nothing.",
  ["inputs", "fault_sequences"], "all parameter values and all states of the file system at the path",
  "Tests look at the promised path only, never at bystanders, and in few states.",
  [PA], [("Parameters.creatable_*/existing_*", PA)],
  ENG + "Path states: absent with and without parents, file, empty file, directory empty, full or nested, below a file.",
  "abstract file system")
P("C14", "Nested names, namespaces and prefixes describe one tree",
  "For any nested mapping, a dotted name reaches exactly the value at that path, a namespace holds exactly the subtree and "
  "knows its full prefix however it was reached (Parameters put into a mapping keep their own), the fully qualified items list exactly the leaves with their full "
  "names, sub-namespaces and conversions back to nested mappings agree with the tree, and building from key-value pairs gives "
  "the tree the pairs describe. A failed lookup names the parameter and the namespace it was looked up in. Neither the mapping given nor the one returned is shared mutably with the Parameters.",
  ["inputs"], "all parameter trees and names", "Tests use one tree of a fixed shape.",
  [PA], [("Parameters.from_mapping/namespace/namespaced_items/as_nested_dicts/from_key_value_pairs", PA)],
  ENG + "All trees of at most three levels over two keys, all names up to depth four.", "tree shapes, opaque leaves")
P("C15", "Unification overrides leaf by leaf",
  "For any two parameter trees, unify returns the left tree with every leaf of the right tree put in place: namespaces merge "
  "recursively, leaves of the right win, leaves only in the left stay; a leaf meeting a namespace is refused with IOError. Neither "
  "argument changes, and a plain mapping on the right acts as the Parameters built from it.",
  ["inputs"], "all pairs of parameter trees", "Tests unify two literal trees.",
  [PA], [("Parameters.unify", PA)],
  ENG + "All pairs of trees of two levels over two keys, sampled three levels.", "tree shapes, opaque leaves")
P("C17", "Interpolation is complete, order-independent substitution",
  "Loading a parameter text replaces every %name% by the value of the named parameter, recursively, whatever the order of "
  "definition; a value that is nothing but a placeholder takes the value of any type, falsy included. Own parameters beat "
  "included ones, which beat the environment; environment values never appear as parameters of their own. A cycle, an unknown "
  "name or a non-string embedded in text is refused with an exception.",
  ["inputs", "configurations"], "all parameter texts, contexts and environments",
  "Tests contain a few chains; dependency graphs, orders and scopes multiply beyond tests.",
  [PA], [("YAMLParametersLoader interpolation", PA)],
  ENG + "All dependency graphs over three parameters in every order; YAML parsing itself is trusted.",
  "dependency graphs, opaque contents")
P("C18", "Includes load relative to their file and later files win",
  "Loading a file with includes yields the includes in order, each able to use the earlier ones for interpolation, overridden "
  "by the including file, recursively; relative includes are resolved against the file naming them, refused when loading from "
  "a string. The _includes key itself disappears. Cyclic or missing includes and malformed files (not a mapping, non-string "
  "keys, dotted keys) raise, and loads do not influence one another.",
  ["inputs", "configurations"], "all arrangements of including and included files", "Tests have one or two includes in one directory.",
  [PA], [("YAMLParametersLoader.load", PA)],
  ENG + "Some forty arrangements of one to three includes over several directories.", "abstract file system")
P("C19", "Objects from parameters follow the documented decision table",
  "object_from_parameters and evaluate build exactly what the parameter's form asks for: the named special value, the named "
  "special factory, a value expression, a factory given the namespace as parameters (from_parameters for classes having it), "
  "or the default value or factory when absent. Both or neither of value and factory, a result of the wrong type, an "
  "uncallable factory or a missing parameter without default is ParameterError. Factories get parameters with the full prefix.",
  ["inputs", "configurations"], "all combinations of parameter form, special values and factories, defaults and result types",
  "The decision table has hundreds of rows; tests visit a dozen.",
  [PA], [("Parameters.object_from_parameters/evaluate", PA)],
  ENG + "The full table is enumerated; name lookup of expressions is modelled for names, attributes and calls.",
  "decision table")
P("C20", "Parameters written as YAML load back the same",
  "Writing any parameters whose leaves are strings, numbers, booleans, nulls, paths or lists of such and loading the text gives "
  "the same parameters in the same order (paths and sequences as strings and lists), as UTF-8, to any kind of target; str() is "
  "the written form. Values which cannot be written raise instead of being written wrongly, and writing never changes the "
  "parameters.",
  ["inputs"], "all parameter trees", "Tests write one small tree.",
  [PA], [("YAMLParametersWriter.write", PA)],
  ENG + "PyYAML parsing and emitting are trusted transfer functions.", "tree shapes, value kinds")
P("C21", "Path lists and maps from parameter files follow the line grammar",
  "path_list_from_file yields one path per line that is neither blank nor a comment, trimmed, in order; path_map_from_file one "
  "entry per line of two tab-separated fields and an error on any other line; relative paths are resolved against the given "
  "base only. Files are read as UTF-8, closed, and never changed; missing files or parameters are refused.",
  ["inputs"], "all list and map files", "Tests read one file each.",
  [PA], [("Parameters.path_list_from_file/path_map_from_file/pickled_object_from_file", PA)],
  ENG + "All combinations of up to three line kinds.", "line kinds, opaque tokens")
P("C22", "Whatever is opened is closed, on every path",
  "Every file, archive and archive member opened by reading from a source or writing to a sink is closed when the read, write or "
  "with-block (of a source, a sink, or a key-value store) ends, however it ends: normally, by an exception in the caller's block, by a missing or unreadable file or member, "
  "or by any single failing call to the environment. The error reaches the caller, and closing happens for what the library "
  "opened only: a zip file or buffer handed in stays open.",
  ["fault_sequences", "inputs"], "all sources and sinks, all operations, every single fault point",
  "A leak does not change a result, and tests inject no faults.",
  [IO, KV], [("CharSource/ByteSource readers", IO), ("CharSink/ByteSink writers", IO), ("CloseableWith wrappers", IO),
             ("key-value sources and sinks as context managers", KV)],
  ENG + "One failure per path, at every environment call; single operations.", "typestate of modelled handles, one-fault model")
P("C24", "All character sources with the same content read the same",
  "The text, the lines, the emptiness test and incremental reading of a source agree with its content whatever its kind (string, "
  "file, compressed file, member of a tar or zip archive, decoded byte source) and encoding: lines are ended by line feed only, "
  "without it, and no character is lost or changed, except that carriage returns in files, plain, compressed or archived, are all "
  "read as line feeds. A byte source returns exactly its bytes. Reading has no effect and can be "
  "repeated. Missing files or members, and undecodable bytes, raise.",
  ["inputs"], "all kinds of sources, contents and encodings", "Tests read short ASCII texts from each kind once.",
  [IO], [("CharSource kinds", IO), ("ByteSource kinds", IO)],
  ENG + "Fifteen content shapes by kind and encoding, and five with carriage returns.", "opaque contents")
P("C25", "Sinks store exactly what was written and touch nothing else",
  "After a write or a finished with-block, the target of a sink holds exactly the characters or bytes written, in order, in the "
  "sink's encoding, replacing (files) or adding to (zip) what was there; a matching source reads the same back. Nothing else is "
  "created, changed or deleted; string and buffer sinks show the content; a null sink accepts everything and stores nothing. An "
  "error while writing reaches the caller.",
  ["inputs", "histories", "fault_sequences"], "all contents, write sequences, kinds of sink and earlier states of the target",
  "Tests write one text per kind and look at that only.",
  [IO], [("CharSink kinds", IO), ("ByteSink kinds", IO)],
  ENG + "Writes of up to three parts over absent, present and empty targets.", "abstract file system, opaque contents")
P("C26", "Key-value stores are usable exactly inside their with-block",
  "A key-value sink or source kept in a file may be used only between entering and leaving its with-block: before and after, "
  "putting, getting and iterating raise instead of doing something. Entering opens, leaving closes everything on every path, "
  "also when the block or one environment call raises; exceptions of the block are never suppressed; unreadable stores raise "
  "and leak nothing.",
  ["histories", "fault_sequences"], "all operation orders around the with-block and every single fault point",
  "Tests use the objects properly and inject no faults.",
  [KV], [("zip/directory/tar sinks and sources: __enter__, __exit__, put, get", KV)],
  ENG + "One failure per path.", "typestate of modelled handles, one-fault model")
P("C27", "A zip store lists exactly the keys whose values it holds",
  "After any sequence of puts in any number of sessions (creating, overwriting or appending), the keys of the store read back "
  "are exactly the keys put since the store was last created or overwritten, each with its own value, in any listing function's "
  "form; a failed put leaves no key without a value; a key which is already there, not a string or cannot be listed is refused "
  "at once.",
  ["histories", "fault_sequences"], "all sequences of sessions and puts, failing ones included",
  "The ledger spans sessions: mistakes need reuse or appending after particular histories.",
  [KV], [("zip key-value sinks' key ledger", KV), ("zip sources' key listing", KV)],
  ENG + "Up to three puts in up to three sessions, text and bytes.", "histories over opaque keys and values",
  state=[("keys written", "the keys listed when the sink is closed", KV)])
P("C28", "What a key-value sink writes the matching source reads",
  "For every mapping of keys to values written by any kind of sink (zip, directory; text or bytes) in any order, the matching "
  "source holds exactly that mapping: same keys, same values, nothing else; writing again replaces as documented and touches "
  "nothing outside the store. Keys a store cannot represent are refused at the time of writing.",
  ["inputs", "histories"], "all mappings, orders and earlier states", "Tests write two or three friendly keys.",
  [KV], [("zip and directory sinks and sources", KV)],
  ENG + "Maps of up to three keys, including awkward keys.", "abstract file system, opaque contents")
P("C29", "Every way of asking a key-value source gives the same answer",
  "For every source, keys, indexing, get with and without default, items and iteration describe one mapping: a present key gives "
  "its value, an absent key KeyError (indexing) or the default (get), falsy values count as values. An interpreted source "
  "applies its function to exactly the (key, value) it would otherwise return, to nothing else, and leaves the wrapped source "
  "unchanged; errors in reading a value are not reported as absence.",
  ["inputs"], "all kinds of sources, mappings, keys and interpretation functions", "Tests ask for two keys of one mapping.",
  [KV], [("KeyValueSource accessors", KV), ("interpreted sources", KV)],
  ENG + "Values of None are excluded: the interface treats them as absent.", "opaque keys and values")
P("C30", "Key-value stores from parameters are the stores the parameters name",
  "The from-parameters functions give the built-in zip and file-map sources and sinks for their shortcut names, of characters or "
  "bytes as the function promises, for the path the parameters give, in any parameter namespace; a class or function of the "
  "caller's context or of an imported module gets the parameters with their full prefix; results of the wrong kind, unknown "
  "types and missing paths are refused. The caller's context is not changed.",
  ["configurations"], "all functions, shortcut names, namespaces and contexts", "Tests cover some cells of the table.",
  [KV], [("char/byte key_value_(linear_)source/sink_from_params", KV)],
  ENG + "Names of types are resolved in modelled contexts. The default without a type never works in the pinned code and is "
  "specified as an exception only.", "decision table")
P("C31", "A tar source yields exactly the selected members under their keys",
  "Iterating over a tar (or compressed tar) source yields, in archive order, the key and exact content of each regular file the "
  "name filter, key function and key filter select, and nothing else: no directories or links; the key is the member's name or "
  "what the key function makes of it. Repeated iteration and partly consumed iterators give the same. Reading does not change "
  "anything.",
  ["inputs"], "all archives, filters and key functions", "Tests use one archive with one filter at a time.",
  [KV], [("tar key-value linear source", KV)],
  ENG + "Archives of up to three members of every kind by all filter combinations.", "abstract archive contents")
P("C43", "Line sets and docID maps follow their file formats",
  "file_lines_to_set yields exactly the distinct lines of a file, ends of lines stripped as documented; a docID map is read from "
  "its tab-separated lines in order, and any other line is refused; writing a map and reading it gives the same map in the same "
  "order, with paths relative or absolute as asked; is_empty_directory tells whether a directory has no entries.",
  ["inputs"], "all files and all docID maps", "Tests read one file each.",
  [IO], [("read_doc_id_to_file_map / write_doc_id_to_file_map", IO), ("file_lines_to_set", IO)],
  ENG + "All combinations of up to three line kinds.", "line kinds, opaque tokens")
MI = "vistautils/misc_utils.py"
SCR = "vistautils/scripts/"
P("C23", "Text never depends on the platform's encoding",
  "Every text file the library or its scripts read or write, in whatever wrapping (plain, compressed, member of an archive), is "
  "opened with an explicit encoding: UTF-8, or the one the caller asked for. No result depends on the locale of the process.",
  ["configurations"], "all platforms' locale encodings, all call sites and paths which open text",
  "Tests run in one locale, UTF-8, in which a forgotten encoding makes no difference.",
  [IO, KV, PA, SCR + "split_key_value_store.py", SCR + "text_at_offsets.py", "vistautils/checkpoints.py"],
  [("every call which opens text", IO), ("file-handling operations", PA)],
  ENG + "Both a rule over all call sites in all modules and an event check over the abstract paths of eleven other "
  "specifications.", "syntactic rule over all call sites and events on abstract paths")
P("C32", "Splitting and joining stores loses, repeats and changes nothing",
  "Splitting a store into slices gives exactly the requested number of zip stores, disjoint, together exactly the input, sizes "
  "differing by at most one, listed in order in _slices.txt, the same for the same seed whatever order the input lists its keys "
  "in. An explicit split gives each part exactly the keys of its key file; an unknown key, or an input key in no part unless "
  "must_be_exhaustive is false, raises. Joining gives the union of the inputs and refuses duplicate keys. Inputs are unchanged "
  "and everything is closed.",
  ["inputs", "configurations"], "all stores, slice counts, seeds, key files and lists of stores",
  "Tests split one or two stores of four keys.",
  [SCR + "split_key_value_store.py", SCR + "join_key_value_stores.py"],
  [("even and explicit split", SCR + "split_key_value_store.py"), ("join", SCR + "join_key_value_stores.py")],
  ENG + "Stores of up to four keys, up to five slices, all shuffles of three (chosen shuffles above).",
  "opaque keys and contents, unknown permutations")
P("C33", "Topological sorting orders exactly the acyclic graphs",
  "For any directed graph, topological_sort yields every node exactly once, each before all its successors, if the graph has no "
  "cycle, and raises ParameterInterpolationError if it has one; edges between unknown nodes are refused; in-degrees and "
  "predecessors agree with the edges; the graph can be sorted again.",
  ["inputs"], "all directed graphs", "Tests sort one graph and one cycle.",
  ["vistautils/_graph.py"], [("Digraph.topological_sort", "vistautils/_graph.py")],
  ENG + "All graphs of at most three nodes, all acyclic ones of four under a fixed order plus one more edge.", "all small graphs")
P("C34", "Iteration helpers yield exactly the items their names say",
  "drop yields all but the first n items, windowed all runs of the given length (with partial windows also those cut off by the "
  "end), non_none the items which are not None, tile_with_pairs the neighbouring pairs; given an iterable the result can be "
  "iterated again, given an iterator it is one, and no more is consumed than needed. only and get_only return the single item "
  "and raise otherwise, whatever the items compare equal to. Negative counts and empty windows are ValueErrors.",
  ["inputs"], "all iterables and iterators, sizes and items, None, falsy and odd items included",
  "Tests use lists of integers.",
  ["vistautils/iter_utils.py", "vistautils/collection_utils.py", "vistautils/iterutils.py"],
  [("drop, only, windowed, non_none", "vistautils/iter_utils.py"), ("get_only", "vistautils/collection_utils.py")],
  ENG + "All inputs of up to six items by all sizes up to seven.", "opaque items")
P("C35", "Preconditions fail exactly when their condition does",
  "Each check function returns (its argument, where documented) when its condition holds and raises the documented exception - "
  "ValueError, AssertionError for check_state, TypeError for class checks - when it does not; falsy values are values, and only "
  "None is None.",
  ["inputs"], "all values and class specifications", "Tests try two values each.",
  ["vistautils/preconditions.py"], [("check functions", "vistautils/preconditions.py")],
  ENG + "A table of eighteen kinds of value by thirteen class specifications.", "value kinds")
P("C36", "A checkpoint is in the store exactly if it was set since the last reset",
  "For any history of set, reset_all and re-opening, a name is in a checkpoint directory if and only if it was set since the last "
  "reset, also by an earlier process; the directory is made when missing, other directories and files are never changed, names "
  "which are not strings are TypeErrors, and failures of the environment are reported.",
  ["histories", "fault_sequences"], "all histories of operations over several processes", "Tests follow one history in one process.",
  ["vistautils/checkpoints.py"], [("directory checkpoints", "vistautils/checkpoints.py")],
  ENG + "All histories of up to three operations (four in thorough). Names which are no file names are excluded, as documented.",
  "histories over an abstract file system")
P("C37", "The entry point runs main once with the parameters asked for",
  "parameters_only_entry_point runs main exactly once with the parameters of the file named on the command line, or those given "
  "explicitly (also empty ones), overridden by every -p pair at its dotted name, after configuring logging from them; bad "
  "arguments stop before main, errors of main pass through. Logging is set to the configured level (INFO if none) on the root "
  "logger with one console handler on standard output, or by the configuration file if there is one; unknown levels are "
  "ParameterErrors.",
  ["inputs", "configurations"], "all command lines, parameter sources and logging configurations",
  "Tests call it once with a file and never look at the logging.",
  ["vistautils/parameters_only_entrypoint.py", "vistautils/logging_utils.py"],
  [("entry point", "vistautils/parameters_only_entrypoint.py"), ("configure_logging_from", "vistautils/logging_utils.py")],
  ENG + "argparse is trusted; logging is a modelled logger tree.", "decision table, modelled logger state")
P("C38", "Memory amounts are parsed exactly by their grammar",
  "A string is accepted as a memory amount if and only if it is a decimal number of at least one, an optional space, one of K, M, "
  "G, T in either case and an optional B in either case, with nothing before or after; the amount and unit are those spelled. "
  "Amounts below one cannot be built, and amounts are frozen values.",
  ["inputs"], "all strings", "Tests try a dozen strings.",
  ["vistautils/memory_amount.py"], [("MemoryAmount.parse", "vistautils/memory_amount.py")],
  ENG + "All words of up to four symbols (five in thorough) over the character classes of the grammar; decimal digits are ASCII.",
  "words over character classes")
P("C39", "Helper functions follow their definitions and leave arguments alone",
  "str_list_limited shows at most the given number of items and counts the others; strip_extension cuts at the last dot; "
  "flatten_once_to_list removes one level; pathify and the qualified-name functions answer as documented. "
  "eval_in_context_of_modules evaluates in the given context with the modules (and their parent packages) added, the context "
  "winning and left unchanged, and refuses results of the wrong type. WithId, Scored and the attribute helpers accept exactly "
  "what they document.",
  ["inputs"], "all arguments", "Tests try one or two arguments each.",
  [MI, "vistautils/class_utils.py", "vistautils/attrutils.py"],
  [("helpers", MI), ("fully_qualified_name", "vistautils/class_utils.py"), ("attribute helpers", "vistautils/attrutils.py")],
  ENG + "Small sizes; expressions evaluated are names, attributes and calls.", "opaque items")
P("C40", "Downsampling, copying and printing scripts give exactly what was asked",
  "Downsampling writes a store of exactly min(requested, available) entries of the input with unchanged contents, the same for the "
  "same seed. Copying a directory of files writes one entry per file with its bytes, under its name or its name without the last "
  "extension, and refuses colliding keys. text_at_offsets prints exactly the code points between the offsets of a UTF-8 file, or "
  "reports offsets out of bounds. Bad parameters are refused; nothing else is touched; everything is closed.",
  ["inputs", "configurations"], "all stores, directories, texts and parameters", "Tests run each script once on friendly input.",
  [SCR + "downsample_key_value_store.py", SCR + "directory_to_key_value_store.py", SCR + "text_at_offsets.py"],
  [("downsample", SCR + "downsample_key_value_store.py"), ("directory to store", SCR + "directory_to_key_value_store.py")],
  ENG + "Up to four entries, directories without sub-directories.", "opaque keys and contents, unknown permutations")
P("C41", "Converting a tar to a zip keeps every selected file and nothing else",
  "The zip, named after the archive with .tar, .tgz or .tar.gz stripped and .zip added, replaces any earlier one and holds exactly "
  "the regular files of the archive with their names and bytes, less those larger than the cutoff when large files are to be "
  "omitted, whether streamed or unpacked; unpacked files are removed again, streaming unpacks nothing, no other file is touched.",
  ["inputs", "configurations"], "all archives and option combinations", "The script has no tests.",
  [SCR + "tar_gz_to_zip.py"], [("conversion", SCR + "tar_gz_to_zip.py")],
  ENG + "Archives of up to three members of every kind; links are excluded when unpacking.", "abstract archive contents")
P("C42", "Answers depend on the arguments only, and arguments are left alone",
  "No function or method of the library changes the collections, mappings or objects given to it, the environment variables, the "
  "working directory or (configuring logging apart) the logging of the process. Called again with equal arguments and files it "
  "gives an equal answer, whatever calls came before; called after a file has changed it answers from the new content. Values "
  "returned earlier do not change when later calls are made, when the mappings given are changed afterwards, or when another "
  "returned container is changed. Importing a module of the library has no such effect either and touches no file.",
  ["inputs", "histories"], "all histories of calls of public functions with any arguments",
  "Tests call each function on fresh arguments in a fresh state; caches, shared defaults and in-place changes only show in what "
  "comes next.",
  ["vistautils/parameters.py", "vistautils/io_utils.py", "vistautils/key_value.py", "vistautils/range.py", "vistautils/span.py",
   "vistautils/misc_utils.py", "vistautils/iter_utils.py"],
  [("Parameters, loader and writer", "vistautils/parameters.py"), ("sources and sinks", "vistautils/io_utils.py"),
   ("stores", "vistautils/key_value.py"), ("range sets and maps", "vistautils/range.py")],
  ENG + "Three variants of the arguments of each part's operations, in orders A B A and with every other part's operations in "
  "between; caches which are correct are not reported.", "histories of three to four operations")
P("C44", "A failed or killed operation is never taken for success and can be repeated",
  "If any single call to the environment fails while a script runs, a store, source, sink, parameter file or checkpoint directory "
  "is read or written, the operation raises, whatever it was reading stays unchanged and everything it opened is closed. Running "
  "the same operation again over what the failed run left behind, or over what a process killed at that point would have left, "
  "gives the result of an undisturbed run; only directory stores, and zip files being added to, must be removed first.",
  ["fault_sequences", "crash_points"], "every single environment call failing, or the process dying there, in every operation",
  "Tests never make the environment fail.",
  ["vistautils/io_utils.py", "vistautils/key_value.py", "vistautils/parameters.py", "vistautils/checkpoints.py",
   SCR + "split_key_value_store.py", SCR + "join_key_value_stores.py", SCR + "tar_gz_to_zip.py"],
  [("zip sinks", "vistautils/key_value.py"), ("file sinks", "vistautils/io_utils.py"), ("scripts", SCR + "split_key_value_store.py")],
  ENG + "Small inputs; every call to the modelled file system fails once; a killed process leaves what had been flushed.",
  "every fault point of the small scenarios")
