#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as one readable source)."""
import json, os

R = "include/stdx/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [R + f for f in files],
            "state": [dict(name=n, meaning=m, where=R + w) for n, m, w in state],
            "mechanism": [dict(name=n, where=R + w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        }})


prop("P01", "A fixed-size bit set behaves as a set of positions below its size",
     "For every size and storage element type, after any sequence of constructions, bit and range updates, bulk updates, shifts and set operations, the bit set equals the mathematical subset of {0..size-1} those operations define, and no operation reads or writes outside it. "
     "All ways of looking at it (indexing, counting, all/any/none, equality, conversion to integers, lowest unset position, visiting set/unset/all bits in ascending order, reductions) agree with that subset, whatever history produced it. "
     "Shifting by the size or more empties it, and bits shifted or written past the end never reappear.",
     ["inputs", "histories", "configurations"],
     "every size (one and several storage elements, full and partial last element), element type, operation sequence and argument",
     "The unit tests check single operations from fresh values for a handful of sizes; they never chain operations whose interaction goes through unused bits of the last element, nor sweep sizes around element boundaries.",
     ["bitset.hpp", "bit.hpp", "detail/bitset_common.hpp"],
     [("mask of the last element", "bitset.hpp"), ("range set across elements", "bitset.hpp"), ("multi-element shifts with borrow", "bitset.hpp"), ("countr_zero/one driven visiting", "bitset.hpp")],
     [("storage", "array of unsigned words, little end first", "bitset.hpp")],
     ["public members and free for_each / transform_reduce"])

prop("P02", "A type-indexed bit set maps each distinct type to exactly one bit",
     "For every list of types, repeated types included, each distinct type owns exactly one bit, numbered by first appearance, and setting, resetting, flipping or reading any selection of types affects or reports exactly those bits. "
     "Bulk updates, set operations, counts, conversion and visiting agree with the resulting set of types, and visiting pairs every type with its own index in ascending order.",
     ["inputs", "histories", "configurations"],
     "every type list (distinct or with repeats), every operation sequence over it",
     "Tests use short lists of distinct types and single operations; the interaction of repeated types with updates and of bulk updates with visiting is not exercised.",
     ["bitset.hpp"],
     [("unique type list used for indices", "bitset.hpp"), ("table of callers indexed by bit", "bitset.hpp")],
     [("bs", "underlying bit set", "bitset.hpp")],
     ["public members of type_bitset"])

prop("P03", "Concurrent bit-set updates are linearizable and lose nothing",
     "Under every interleaving of any number of threads, each update or observation of an atomic bit set takes effect at one instant between its call and its return: no update is lost, and set, reset and flip on a bit or range return exactly the content just before that instant. "
     "The content is always a subset of {0..size-1} as defined by the operations, and whole-set store, set, reset and flip touch exactly the valid positions. "
     "A memory order the caller requests is the one used for that access, and sequential consistency is used when none is given.",
     ["schedules", "histories", "inputs", "configurations"],
     "every interleaving of the shared-memory accesses of every set of concurrent calls, every size up to the word, every argument",
     "The tests are single-threaded (and are not even built here, since they need an absent dependency); no test runs two calls concurrently, so replacing a read-modify-write by a load and a store passes.",
     ["atomic_bitset.hpp", "bit.hpp"],
     [("single fetch-or / fetch-and / fetch-xor per update", "atomic_bitset.hpp"), ("mask of valid bits on load", "atomic_bitset.hpp")],
     [("storage", "one atomically accessed word", "atomic_bitset.hpp")],
     ["public members; primitive atomic backend supplied by the user of the library"])

prop("P04", "Atomic values are linearizable with the arithmetic of plain values",
     "Under every interleaving of any number of threads, each load, store, exchange, fetch-and-modify, compound assignment, increment and decrement on an atomic value takes effect at one instant and no update is lost. "
     "Fetch forms and postfix forms return the value just before that instant, compound and prefix forms the value just after, with the wrap-around arithmetic of the value type, also when the stored representation is wider than the value. "
     "A requested memory order is the one used, and sequential consistency is the default.",
     ["schedules", "histories", "inputs", "configurations"],
     "every interleaving of concurrent calls, every operation and argument, every integral value type, default or overridden storage type",
     "The tests are single-threaded and cannot be built here (missing dependency); they cannot distinguish an atomic update from a separate load and store.",
     ["atomic.hpp"],
     [("one read-modify-write primitive per operation", "atomic.hpp")],
     [("value", "the atomically accessed representation", "atomic.hpp")],
     ["public members; primitive atomic backend"])

prop("P05", "A doubly-linked intrusive list is always exactly its operation history",
     "After any sequence of pushes and pops at either end, insertions before any position including the end, removals of any member and clears, iterating yields exactly the sequence that history defines, and front, back and emptiness agree with it. "
     "The links are always mirror images: walking backwards from the last element visits the same elements reversed, and nodes outside the list are never reachable from it, whatever stale links a node carries when it is added without checking.",
     ["histories", "inputs", "configurations"],
     "every operation sequence over any number of nodes and lists, both node-checking policies, nodes re-used after leaving a list",
     "A property test exists for some operation mixes with fresh nodes and the checked policy; re-use of nodes carrying stale links, moves between lists and insertion at the end are not covered.",
     ["intrusive_list.hpp", "detail/list_common.hpp"],
     [("link splicing", "intrusive_list.hpp"), ("head/tail maintenance", "intrusive_list.hpp")],
     [("head", "first node", "intrusive_list.hpp"), ("tail", "last node", "intrusive_list.hpp"), ("next/prev", "links inside user nodes", "intrusive_list.hpp")],
     ["iteration, front, back, empty and the nodes' own link members"])

prop("P06", "A singly-linked intrusive list is always exactly its operation history",
     "After any sequence of pushes at either end, pops from the front and clears, iterating yields exactly the sequence that history defines, front, back and emptiness agree with it, and a list that was emptied behaves like a new one. "
     "Nodes outside the list are never reachable from it, whatever stale link a node carries when it is added without checking.",
     ["histories", "inputs", "configurations"],
     "every operation sequence over any number of nodes and lists, both node-checking policies",
     "Tests run a few short fixed sequences with fresh nodes; tail maintenance over long mixed histories and node re-use is not covered.",
     ["intrusive_forward_list.hpp", "detail/list_common.hpp"],
     [("head/tail maintenance", "intrusive_forward_list.hpp")],
     [("head", "first node", "intrusive_forward_list.hpp"), ("tail", "last node", "intrusive_forward_list.hpp")],
     ["iteration, front, back, empty and the nodes' own link member"])

prop("P07", "Checked lists report every linked node and hand nodes back clean",
     "With checking on, adding a node that still carries any link raises exactly one panic before the list or the node is changed, through every way of adding, and adding a clean node never panics. "
     "A node that leaves a list by pop, removal or clear has no link left and can be added again at once; without checking nothing panics and leaving nodes are not touched.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every history of legal operations interleaved with attempts to add linked nodes, both list kinds, both policies, handlers that return by exception",
     "Tests check one bad push per entry point on tiny lists; they do not check that the list is intact after a panic or that every leaving path cleans every link.",
     ["detail/list_common.hpp", "intrusive_list.hpp", "intrusive_forward_list.hpp", "panic.hpp"],
     [("validity test before linking", "detail/list_common.hpp"), ("clean-up on pop and clear", "detail/list_common.hpp")],
     [("next/prev", "links inside user nodes", "detail/list_common.hpp")],
     ["panic handler specialisation, node link members"])

prop("P08", "A bounded queue is first-in first-out across any number of wrap-arounds",
     "After any sequence of pushes, pops, clears and accesses within capacity, pops return the pushed elements in push order, front and back are the oldest and newest element, and size, empty and full are exact; references returned by push, front and back denote the stored element. "
     "With the safe policy a push to a full queue, and a pop or access of an empty one, raises exactly one panic before anything changes; a custom policy is consulted exactly once per such call with the exact size and capacity; legal operations never panic.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every operation sequence, capacity from one up, copyable and move-only elements, all overflow policies",
     "Tests push and pop a few elements at one capacity; positions of the ring at every offset combined with clear, and the state after a caught panic, are not enumerated.",
     ["cx_queue.hpp", "panic.hpp"],
     [("ring indices", "cx_queue.hpp"), ("overflow policy", "cx_queue.hpp")],
     [("storage/indices/size", "ring buffer", "cx_queue.hpp")],
     ["public members, policy calls, panic handler"])

prop("P09", "A bounded vector is exactly the sequence of its operations",
     "After any sequence of constructions, appends, removals from the back, element writes, clears and bulk overwrites within capacity, the vector holds exactly the resulting sequence, through indexing, forward and reverse iteration, front, back, indexed access and size, empty and full. "
     "Two vectors of one type are equal exactly when their sequences are, regardless of what either held before; returned references denote the stored element.",
     ["histories", "inputs", "configurations"],
     "every operation sequence and content, capacity from one up, any element type",
     "Tests look at single operations; equality after shrinking (stale elements behind the end) and long mixed histories are not covered.",
     ["cx_vector.hpp"],
     [("size bookkeeping over a fixed array", "cx_vector.hpp")],
     [("storage/current_size", "fixed array and live prefix", "cx_vector.hpp")],
     ["public members"])

prop("P10", "A bounded set holds each key at most once and exactly the inserted keys",
     "After any sequence of constructions, inserts, erases, merges, pops and clears within capacity, membership, size, emptiness and iteration describe exactly the mathematical set those operations define, each key appearing once. "
     "Insert and erase report truthfully whether they changed the set, a refused insert changes nothing, and a pop removes and returns one member.",
     ["histories", "inputs", "configurations"],
     "every operation sequence, every key pattern (duplicates included), any capacity and key type",
     "Tests insert and erase a few keys; combinations of erase position and later inserts, duplicates at construction and merges with overlap are not enumerated.",
     ["cx_set.hpp"],
     [("linear search and swap-with-last erase", "cx_set.hpp")],
     [("storage/current_size", "live prefix", "cx_set.hpp")],
     ["public members"])

prop("P11", "A bounded map holds exactly the latest value of every live key",
     "After any sequence of constructions, insertions, assignments, writes through returned references, erases, pops and clears within capacity, lookup, membership, size, fullness and iteration describe exactly the key-to-value function those operations define, each key appearing once. "
     "Insertion reports whether the key was new, erase reports whether a key was removed, and a pop removes and returns one live pair.",
     ["histories", "inputs", "configurations"],
     "every operation sequence, key and value pattern, any capacity, key and value type",
     "Tests cover each operation once or twice on small maps; erasing at every position followed by updates of the moved entry, and full-capacity histories, are not enumerated.",
     ["cx_map.hpp"],
     [("linear search and swap-with-last erase", "cx_map.hpp")],
     [("storage/current_size", "live prefix of pairs", "cx_map.hpp")],
     ["public members"])

prop("P12", "A bounded multimap relates keys to exactly the values associated with them",
     "After any sequence of key inserts, pair inserts, key erases, pair erases and clears within capacity, the multimap is exactly the relation those operations define: key and pair membership, the value set of each key, the number of keys and iteration all agree, and operations on one key never affect another. "
     "Erasing the last value of a key removes the key, erase reports truthfully what it removed, and inserting an existing key or pair changes nothing.",
     ["histories", "inputs", "configurations"],
     "every operation sequence, key and value pattern, any key and value capacity",
     "Tests check a few fixed sequences; interactions of pair erase, key removal and re-insertion across several keys are not enumerated.",
     ["cx_multimap.hpp", "cx_map.hpp", "cx_set.hpp"],
     [("map of sets", "cx_multimap.hpp")],
     [("storage", "map from key to value set", "cx_multimap.hpp")],
     ["public members"])

prop("P13", "A tombstone optional is engaged exactly when it holds a non-sentinel value",
     "After any sequence of constructions, assignments, emplacements, resets, copies, moves and in-place writes, an optional is disengaged exactly when its stored value equals the sentinel, and every accessor, conversion and value-or form agrees with that. "
     "Transform, and-then, or-else, the pipe and the many-argument transform call the given function exactly when the std::optional rules say, exactly once, with the held values in order, and yield what those rules say; comparisons order a disengaged optional before every engaged one. "
     "Each held object is destroyed exactly once.",
     ["histories", "inputs", "configurations"],
     "every operation sequence, value (sentinel included), value category and sentinel kind (trait, inline value, floating point, pointer, tuple-like)",
     "Tests call each member once on fresh objects; chains of operations across value categories and the sentinel reached through writes are not covered.",
     ["optional.hpp", "functional.hpp"],
     [("comparison with the sentinel", "optional.hpp"), ("destroy-then-construct replacement", "optional.hpp"), ("unwrapping invocation", "optional.hpp")],
     [("val", "the value or the sentinel", "optional.hpp")],
     ["public members and free transform"])

prop("P14", "A lazy value is computed exactly once per need and never before it",
     "A latched value's computation runs exactly once, at the first access through any accessor, and never if nothing accesses it; every later access sees the same object. "
     "A cached value additionally recomputes exactly once at refresh and exactly once at the first access after a reset; asking whether a value is present never computes, and the answer is true exactly between a computation and the next reset.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every sequence of presence queries, accesses of all kinds and value categories, copies, resets and refreshes, computations that throw included",
     "Tests call accessors in one or two fixed orders; mixed sequences, copies and failing computations are not covered.",
     ["latched.hpp", "cached.hpp", "functional.hpp"],
     [("populate on access", "latched.hpp"), ("reset / refresh", "cached.hpp")],
     [("opt", "the computed value if any", "latched.hpp")],
     ["public members and the user's computation"])

prop("P15", "Rollover integers are exact modular arithmetic with a half-window order",
     "For every width, construction, conversion, negation, increment, decrement and the four operations plus remainder on rollover integers give exactly the result modulo two to the width, with no undefined behaviour for any operand, and the compound and binary forms agree. "
     "One value is less than another exactly when stepping forward from it by one up to half the range reaches the other; equality is equality of residues.",
     ["inputs", "histories", "configurations"],
     "every operand pair and operation sequence at 8, 16, 32 and 64 bits, mixed widths",
     "Tests check a few constants; promotion of narrow types to signed integers, and the order at and around the half-way point for every width, are not swept.",
     ["rollover.hpp"],
     [("unsigned arithmetic with narrowing", "rollover.hpp"), ("difference compared with half range", "rollover.hpp")],
     [("value", "the residue", "rollover.hpp")],
     ["public operators and cmp_less"])

prop("P16", "Saturating casts clamp exactly and size conversions round up exactly",
     "For every pair of integral types and every value, a saturating cast yields the value itself when the target type can represent it and otherwise the nearest representable value. "
     "Converting a count of elements of one type into elements of another yields the least count that can hold them, for every pair of element sizes and every count whose size in bytes fits the address space, through every spelling.",
     ["inputs", "configurations"],
     "every source and target integral type of 8 to 64 bits, signed and unsigned, every value; every pair of element sizes and count",
     "Tests check a few same-width and narrowing pairs; mixed signedness with different widths and element sizes that do not divide each other are not covered.",
     ["numeric.hpp", "utility.hpp"],
     [("clamp by type relation", "numeric.hpp"), ("ceiling division", "utility.hpp")],
     [], ["saturate_cast, sized and its literals"])

prop("P17", "Bit packing, masks, splitting and byte order are exact and mutually inverse",
     "For every width and argument, masks contain exactly the closed range of positions asked for, packing concatenates its arguments in decreasing significance, unpacking and destructuring return exactly the requested fields, and packing what was unpacked gives the original value. "
     "Byte swapping and conversions to and from big- and little-endian order are exact and inverse to each other, and counting, rotating, width, floor, ceiling and single-bit queries equal their mathematical definitions.",
     ["inputs", "configurations"],
     "every value and position at 8 to 64 bits, every pack shape, every boundary list, runtime and template forms",
     "Tests check chosen constants; whole ranges of positions per width and array-shaped masks crossing elements are not swept.",
     ["bit.hpp"],
     [("shift-and-subtract masks", "bit.hpp"), ("shift/or packing", "bit.hpp")],
     [], ["free functions of the bit header"])

prop("P18", "A byte cursor reads and writes exactly the bytes it stands on",
     "After any sequence of moves, reads, writes, peeks and alignments over a buffer of any element type, the cursor's position is exactly the one those moves define, a peek or read returns exactly the bytes at the position in native order, a write changes exactly those bytes, and nothing else moves or changes. "
     "Reads and writes advance by exactly the size accessed, peeks do not advance, alignment moves to the requested absolute boundary, and differences, comparisons and indexing agree with positions.",
     ["histories", "inputs", "configurations"],
     "every operation sequence, buffer element type, starting misalignment and access size",
     "Tests check one operation at a time from the start of an aligned buffer.",
     ["byterator.hpp", "bit.hpp"],
     [("memcpy at a byte pointer", "byterator.hpp"), ("mask arithmetic on the address", "byterator.hpp")],
     [("ptr", "current byte", "byterator.hpp")],
     ["public members, buffer content"])

prop("P19", "A span always views exactly the requested run of the original elements",
     "Any chain of constructions, conversions, first, last and subspan requests within bounds yields a view of exactly the run of original elements those requests compose to, with static and dynamic forms agreeing; the count of a run-time subspan is a limit, so a request for more than is left behind the offset yields what is left. "
     "Size, byte size, emptiness, front, back, indexing, forward and reverse iteration and byte views all describe that run, and writing through a view changes exactly the element viewed.",
     ["inputs", "histories", "configurations"],
     "every chain of sub-view requests, extent kind, source container, element type and bounds",
     "Tests take one sub-view at fixed offsets; compositions and agreement of the static and dynamic forms are not swept.",
     ["span.hpp"],
     [("pointer/size arithmetic", "span.hpp")],
     [("ptr/size", "start and length", "span.hpp")],
     ["public members and byte-view functions"])

prop("P20", "Variadic range algorithms visit in lockstep, in order, exactly once",
     "For any lengths, iterator kinds and number of ranges, the for-each, transform and reduce families call the function exactly once per element of the first range (or the count given), in order, with the elements at the same position of every range, and nothing beyond. "
     "The but-last forms omit exactly the last n elements, the initial/medial/final form calls each function on exactly its part, results are written or accumulated left to right, and the returned functions and iterators are the advanced ones. "
     "Counting iterators count exactly under every iterator operation.",
     ["inputs", "configurations"],
     "every range length, omitted count, number of ranges and iterator category, stateful functions, signed and unsigned counts",
     "Tests use one or two fixed lengths per algorithm; short ranges against larger omitted counts and the returned state are only spot-checked.",
     ["algorithm.hpp", "numeric.hpp", "iterator.hpp"],
     [("lockstep increment loops", "algorithm.hpp"), ("look-ahead for forward iterators", "algorithm.hpp")],
     [], ["calls made, outputs, returned tuple"])

prop("P21", "Tuple access, folds, joins and comparisons follow element order",
     "For every tuple of any length, access by index, type or key and structured binding yield exactly the stored element with the tuple's value category, and assigning through them changes exactly that element. "
     "Left and right folds, joins, apply and tail combine exactly the elements in order with the specified grouping, each function call happening exactly once per step in that order. "
     "Equality and ordering are element-wise and lexicographic.",
     ["inputs", "configurations", "programs"],
     "every tuple length and element pattern, value category, non-associative and type-changing functions, every pair of tuples compared",
     "Tests fix short tuples; grouping with non-commutative operations over all lengths and comparison over all prefixes are not enumerated.",
     ["tuple.hpp", "tuple_algorithms.hpp", "tuple_destructure.hpp"],
     [("inheritance-based elements", "tuple.hpp"), ("fold helpers", "tuple.hpp")],
     [], ["member and free functions"])

prop("P22", "Tuple algorithms rearrange elements without losing or inventing any",
     "Concatenation, cons and snoc, filter, transform, for-each, enumerate, quantifiers, chunking, gathering, sorting, unique, set conversion and cartesian product give for every input exactly the elements, grouping and order their definitions state; only the relative order of elements with equal type names is left open by sorting and gathering. "
     "Every function is called exactly once per position in ascending order, and quantifiers stop at the first deciding element. "
     "Values given as rvalues are moved, never copied, and each arrives exactly once.",
     ["inputs", "configurations", "programs"],
     "every type pattern and length of input tuples, number of tuples, value categories, move-only elements",
     "Tests fix a few type patterns; the space of patterns (runs, repeats, empties) and of tuple counts is not enumerated.",
     ["tuple_algorithms.hpp", "tuple.hpp"],
     [("index tables computed at compile time", "tuple_algorithms.hpp"), ("sorted indices by type name", "tuple_algorithms.hpp")],
     [], ["free functions over tuples"])

prop("P23", "Call-by-need picks the documented call for each function and drops nothing",
     "For any list of functions and list of arguments, each function is called exactly once, in order, with the longest contiguous run of arguments it accepts starting at the leftmost position that admits a call. "
     "The result is the non-void results in function order followed by exactly the arguments no call used, in their original order; lvalue arguments stay references to the caller's objects and rvalue arguments become owned values (an rvalue that one call takes over by value is offered to no other).",
     ["inputs", "programs", "configurations"],
     "every combination of function signatures (nullary, several parameters, defaulted, overloaded, generic, void) and argument lists, lvalue and rvalue",
     "Tests list about twenty combinations; the search order over runs and the computation of unused arguments over all combinations is not enumerated.",
     ["call_by_need.hpp", "tuple_algorithms.hpp"],
     [("nested search over base and length", "call_by_need.hpp"), ("unused-argument scan", "call_by_need.hpp")],
     [], ["results and the calls made"])

prop("P24", "Environments answer every query with the most recent binding",
     "For any sequence of making, extending and appending environments, a query yields the value bound most recently for that query - by extension order, and by the last appended environment - and bindings of other queries are unaffected. "
     "Querying an absent key yields the supplied default, and asking with a default never changes the answer for a present key.",
     ["histories", "inputs", "programs"],
     "every sequence of extend and append operations over any set of queries and values",
     "Tests check one override and one append; histories mixing both over several queries are not covered.",
     ["env.hpp"],
     [("first match wins over prepended bindings", "env.hpp"), ("reversal on append", "env.hpp")],
     [], ["query"])

prop("P25", "Compile-time formatting puts exactly the arguments in exactly their places",
     "For any format string and mix of compile-time and run-time arguments, the result's text is the format string with each compile-time argument's rendering in place of its replacement field and every run-time field kept verbatim, and its argument tuple holds exactly the run-time arguments in order. "
     "Formatting a format result splices its text and arguments in place, escaped braces never consume an argument, and compile-time strings concatenate, split, compare, convert and report sizes exactly as their character sequences do.",
     ["inputs", "programs", "configurations"],
     "every format string and argument pattern (literal, integer, character, string, type, enumeration, nested result, run-time), in the fmt-free build",
     "Tests fix a list of format strings; combinations of positions, nesting and escapes are not enumerated.",
     ["ct_format.hpp", "ct_string.hpp", "detail/fmt.hpp", "detail/freestanding.hpp", "utility.hpp"],
     [("specifier splitting", "ct_format.hpp"), ("result folding", "ct_format.hpp")],
     [], ["ct_format, ct_string operations"])

prop("P26", "Callable adaptors pass every argument once, in order, unchanged",
     "Binding front or back arguments, calling in batches, lazy conversion, overload sets and the function objects call the wrapped function exactly once per call (once per batch, in order) with exactly the bound and supplied arguments in their documented order, and return its result unchanged. "
     "Bound values are copies taken at binding time unless moved in, a called lvalue binder keeps its bound values, and supplied arguments keep their value category.",
     ["inputs", "histories", "configurations"],
     "every number of bound and supplied arguments, batch size, value category and repeated calls",
     "Tests check one arity each; repeated calls, move-only arguments and all batch shapes are not covered.",
     ["functional.hpp", "for_each_n_args.hpp", "utility.hpp"],
     [("bound tuple", "functional.hpp"), ("batch index arithmetic", "for_each_n_args.hpp")],
     [("f/t", "bound function and arguments", "functional.hpp")],
     ["calls made and results"])

prop("P27", "Panics reach the installed handler once, with their message and arguments",
     "Every misuse the library detects, and every explicit panic, calls the installed handler exactly once, synchronously, with the compile-time message when there is one and all run-time arguments unchanged and in order; handlers specialised for a tag are used exactly for that tag. "
     "Without an installed handler a panic has no effect, and operations that are not misuse never call a handler.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every sequence of explicit panics, detected misuses and legal operations, with default, custom and tag-specialised handlers",
     "Tests trigger each panic once; mixtures of legal and illegal operations over several containers are not covered.",
     ["panic.hpp", "cx_queue.hpp", "detail/list_common.hpp"],
     [("variable-template handler dispatch", "panic.hpp")],
     [], ["panic handler specialisation"])

prop("P28", "Constant evaluation and run time give the same answers",
     "Every history of operations that is valid at run time is a valid constant expression wherever the library offers it as one, with no undefined behaviour diagnosed, and yields exactly the result it yields at run time. "
     "This holds for bit sets, lists, the bounded containers, optionals, lazy values, rollover integers, bit utilities, algorithms and tuples.",
     ["histories", "inputs", "configurations"],
     "every operation history over the constexpr-capable parts",
     "Tests repeat a few assertions as static assertions; histories are not evaluated in both worlds.",
     ["bitset.hpp", "cx_queue.hpp", "cx_vector.hpp", "cx_set.hpp", "cx_map.hpp", "cx_multimap.hpp", "intrusive_list.hpp", "intrusive_forward_list.hpp", "optional.hpp", "latched.hpp", "cached.hpp", "rollover.hpp", "bit.hpp", "numeric.hpp", "span.hpp", "algorithm.hpp", "iterator.hpp", "tuple.hpp", "tuple_algorithms.hpp"],
     [("constexpr members free of run-time-only constructs", "cx_queue.hpp")],
     [], ["static evaluation against recorded run-time behaviour"])

prop("P29", "No operation leaks, double-destroys, or reads a dead or moved-from element",
     "For element types that own resources, any history of operations on the bounded containers, optionals, lazy values, tuples, binders and call-by-need constructs and destroys every object exactly once, never assigns to, reads or destroys an object that is not alive, and never hands out the value of an object that was moved from. "
     "An operation that takes over what it is given (an rvalue pushed, inserted, assigned or bound; a queue or optional asked for its value as an rvalue) moves it and never copies it.",
     ["histories", "inputs", "configurations"],
     "every operation history with instrumented element types, copyable and move-only",
     "Tests use a few move-only types in single calls and never account for object lifetimes.",
     ["cx_queue.hpp", "cx_vector.hpp", "cx_set.hpp", "cx_map.hpp", "optional.hpp", "latched.hpp", "cached.hpp", "tuple.hpp", "tuple_algorithms.hpp", "functional.hpp", "call_by_need.hpp"],
     [("forwarding and placement construction", "optional.hpp")],
     [], ["constructor/destructor events of the element type"])

prop("P30", "Type-level lookups and sequences return exactly the mapped entry",
     "For every type or value map and key, lookup yields the entry paired with that key or the given default, and reverse lookup the key paired with that entry; the n-th element of any type or value list is the element written at that position. "
     "Iterating or applying over a type, value or integer sequence visits every element once in order, the traits that describe callables report exactly their argument, result and object types, and the traits that select or classify types answer for the types given, whatever their qualifiers; the concepts hold for exactly the types and callables they describe, whether or not the standard library has concepts of its own. "
     "Keys of one map are distinct (in reverse: its entries), and constants of one map differ in value and not only in type.",
     ["inputs", "programs"],
     "every map size, key position, default, list length and index, callable signature and qualified type",
     "Tests check two- and three-entry maps and short lists.",
     ["utility.hpp", "type_traits.hpp", "function_traits.hpp", "udls.hpp", "concepts.hpp", "ranges.hpp"],
     [("inheritance-based lookup", "utility.hpp"), ("pack indexing", "type_traits.hpp")],
     [], ["aliases and variable templates"])

prop("P31", "Literals, wrapped constants and generated arrays hold exactly what is written",
     "Every literal the library defines yields the number its digits spell in the base its prefix gives, whatever separators and letter case are used, with the documented type; the scaling literals multiply by exactly their power of 1000 or 1024. "
     "An expression the compiler knows comes out of the wrapping macros as a constant of the same type and value, any other as the plain value; arrays made from lists, sequences or generators hold exactly the given or generated elements in order with the common or requested element type; mapping a macro applies it to each argument once in order; of prioritised overloads the highest one that can be called is called.",
     ["inputs", "programs"],
     "every numeral that fits its type, in bases 2, 8, 10 and 16; every way of writing an expression and every integral type; every list and sequence",
     "Tests write a few literals per base and one array per form; separators, letter case, extreme values and mixed element types are not covered.",
     ["udls.hpp", "array.hpp", "utility.hpp", "priority.hpp", "pp_map.hpp"],
     [("digit folding", "udls.hpp"), ("constant detection", "utility.hpp")],
     [], ["literals, make_array, CX_VALUE, CX_WRAP, CT_WRAP, ct, STDX_MAP, priority"])

prop("P32", "Names of types and enumerators are complete and exact",
     "For every type, type_as_string yields the whole of the compiler's name for it whatever its template arguments are, template_base the part before its first template argument list, and two specializations count as of one template exactly when they are. "
     "For every enumerator enum_as_string yields exactly its own unqualified name wherever its enumeration is declared, and for a value without an enumerator the cast expression. Formatting a type or enumerator puts the same text in place.",
     ["inputs", "programs"],
     "every type built from named types, qualifiers, pointers, references, arrays, functions, member and local types and template specializations with type and constant arguments; every enumeration those can declare",
     "Tests name a handful of simple types; nesting and constants whose spelling contains the delimiters the parsing looks for are not covered.",
     ["ct_conversions.hpp", "type_traits.hpp", "ct_format.hpp"],
     [("cutting the name out of the function's signature", "ct_conversions.hpp")],
     [], ["type_as_string, template_base, enum_as_string, is_same_template_v, ct_format"])

prop("P33", "Wrong uses are refused at compile time and right ones are accepted",
     "A use that cannot be right is refused when it is compiled, and one that can be right is accepted, exactly along the boundary of the parameters: sub-spans, masks, element positions, keys and types beyond what an object has, sources smaller than a fixed-size span, tuples that do not match element by element, storage and conversions that do not fit, operators the value type lacks, nodes without links, wrong numbers of arguments or format fields, more elements than capacity or less than none in constant expressions, and conversions that must be spelled out. "
     "A failing STATIC_ASSERT shows its formatted message.",
     ["inputs", "programs"],
     "every extent, offset and count, also those that wrap; every list of element types; every scalar type; every capacity and number of elements",
     "A use that should be refused cannot be part of a program that compiles, so each needs a test of its own; the existing ones hold one use per guard, seldom at the boundary, and many guards have none.",
     ["span.hpp", "tuple.hpp", "tuple_algorithms.hpp", "bitset.hpp", "atomic_bitset.hpp", "atomic.hpp", "bit.hpp", "utility.hpp", "type_traits.hpp", "cx_vector.hpp", "cx_map.hpp", "cx_set.hpp",
      "optional.hpp", "rollover.hpp", "udls.hpp", "static_assert.hpp", "ct_format.hpp", "for_each_n_args.hpp", "call_by_need.hpp", "env.hpp", "byterator.hpp", "detail/list_common.hpp"],
     [("static_assert and requires guards", "span.hpp"), ("overload resolution between element comparisons", "tuple.hpp")],
     [], ["static_assert, requires, deleted and explicit functions"])

prop("P34", "Const objects are read-only and results keep their elements' types",
     "Through a const container, optional, tuple or lazy value nothing is handed out that can be changed and no changing operation is accepted, while every query is; through one that is not const, accessors and functions that are given elements get references that can be changed, and through one about to end optionals and tuples give up what they hold. Spans, byte cursors and intrusive lists follow the constness of what they view. "
     "Types can be copied, moved, assigned, created and compared exactly as what they hold allows, atomics never copied. Iterators convert to const iterators and never back. The tuple algorithms give elements of exactly the types, qualifiers and references the given elements have, or the values or references they are documented to make of them.",
     ["inputs", "programs"],
     "every container, accessor and member, every kind of object (changeable, const, about to end), every list of element types with their qualifiers and references",
     "Tests call accessors with one kind of object and compare values; a reference that is const or not, a copy that is possible or not and the exact type of a result leave the values the same.",
     ["cx_vector.hpp", "cx_queue.hpp", "cx_set.hpp", "cx_map.hpp", "cx_multimap.hpp", "optional.hpp", "tuple.hpp", "tuple_algorithms.hpp", "span.hpp", "latched.hpp", "cached.hpp", "byterator.hpp",
      "intrusive_list.hpp", "intrusive_forward_list.hpp", "bitset.hpp", "atomic.hpp", "atomic_bitset.hpp", "rollover.hpp"],
     [("overloads on const and value category", "tuple.hpp"), ("element types of results", "tuple_algorithms.hpp")],
     [], ["accessors, iterators, members of const objects, copy and move operations, tuple_element"])

prop("P35", "Exceptions pass through and leave containers as they were",
     "An exception thrown by an operation of an element or by a function given to the library comes out of the call unchanged, and the function is not called again. "
     "A push, insertion, assignment, copy, lookup or erasure whose element throws leaves the bounded container exactly as it was (an erasure: when a comparison throws; a multimap may keep a new key without the value that failed); a failed emplace leaves an optional as it was or empty; a pop whose result cannot be handed over leaves the element or has removed it. "
     "Everything goes on working afterwards, and every object is destroyed exactly once.",
     ["inputs", "histories"],
     "every element operation of every call may be the one that throws, in every state of every container; every call of a function may be",
     "No test uses elements or functions that throw, and what a throwing call leaves behind shows only in the calls after it.",
     ["cx_vector.hpp", "cx_queue.hpp", "cx_set.hpp", "cx_map.hpp", "cx_multimap.hpp", "optional.hpp", "algorithm.hpp", "numeric.hpp", "tuple.hpp", "tuple_algorithms.hpp",
      "bitset.hpp", "for_each_n_args.hpp", "call_by_need.hpp", "functional.hpp", "latched.hpp", "array.hpp", "type_traits.hpp"],
     [("counting an element before it is stored", "cx_queue.hpp"), ("destroying the old value before the new one is constructed", "optional.hpp")],
     [], ["push, pop, insert, put, erase, emplace, assignment; algorithms that call functions"])

prop("P36", "Every supported compiler gives the same answers",
     "A program gives the same answers, and the same uses are accepted and refused, whether g++ or clang++ builds it and whether or not it is optimized; for names, up to each compiler's own spelling of types. "
     "This includes the parts the library writes separately for each compiler: element access of tuples and type lists, detection of constants, names of types and enumerators, rotation of words.",
     ["configurations", "histories", "programs"],
     "every component under every supported compiler, for every history and program of the other properties",
     "The test suite is built once, by one compiler and with one set of flags; code selected for another compiler is not even parsed by it.",
     ["tuple.hpp", "tuple_algorithms.hpp", "type_traits.hpp", "utility.hpp", "bit.hpp", "ct_conversions.hpp", "compiler.hpp", "static_assert.hpp", "iterator.hpp", "bitset.hpp", "cx_queue.hpp", "cx_vector.hpp",
      "cx_set.hpp", "cx_map.hpp", "cx_multimap.hpp", "optional.hpp", "span.hpp", "rollover.hpp", "byterator.hpp", "intrusive_list.hpp", "call_by_need.hpp", "ct_format.hpp", "functional.hpp", "env.hpp", "panic.hpp"],
     [("code selected by __has_builtin", "tuple.hpp"), ("code selected by __clang__", "ct_conversions.hpp")],
     [], ["every component, built by clang++ and by g++ with optimization"])

prop("P37", "Headers work alone, in any order, in many units and embedded builds",
     "Every header can be included alone, in any order with the others, any number of times and in any number of translation units of one program, with exceptions and run-time type information on or off, with or without optimization, and with unsigned plain characters and short enumerations; what it documents can then be used. "
     "The units link; a library object shared between units is one object, initialised before any code runs where its constructor allows a constant initialiser; and every operation gives the same answers as in a plain build.",
     ["configurations", "programs"],
     "every header in every build, every order of headers, every program of several units and every order in which the units are initialised",
     "Each test program is one translation unit that also includes the test framework, built once with one set of flags; it cannot show a missing include, a second definition, a late initialisation or a need for exceptions.",
     ["utility.hpp", "type_traits.hpp", "panic.hpp", "atomic.hpp", "atomic_bitset.hpp", "bitset.hpp", "cx_vector.hpp", "cx_queue.hpp", "cx_set.hpp", "cx_map.hpp", "cx_multimap.hpp", "optional.hpp",
      "intrusive_list.hpp", "intrusive_forward_list.hpp", "latched.hpp", "cached.hpp", "rollover.hpp", "static_assert.hpp", "compiler.hpp", "concepts.hpp", "tuple.hpp", "ct_string.hpp", "span.hpp", "byterator.hpp"],
     [("functions that are not templates", "utility.hpp"), ("constructors of objects with static storage", "atomic.hpp"), ("need for exceptions", "type_traits.hpp")],
     [], ["inclusion of every header; definition and initialisation of namespace-scope objects; linking of units"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
