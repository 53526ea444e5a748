#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
I = "include/efp/"
prop("C01", "A dynamic vector behaves as an ideal list under every operation history",
 "After any history of constructing, copying, moving, assigning (also to itself), appending, emplacing, inserting, erasing, popping, resizing, reserving, shrinking and clearing, a dynamic vector holds exactly the elements an ideal list would hold, in order, with matching size, emptiness, equality, indexing and iteration range, also when the inserted value is one of its own elements. Copies are independent of their source, a moved-from vector is empty and reusable, elements added by growing are value-initialised, capacity is never below the size nor below what was reserved, and shrinking gives up the room that is not needed. Inserting past the end, erasing a missing index or popping from an empty vector raises an error and changes nothing.",
 ["histories", "inputs"], "every finite sequence of public operations over any number of live vectors, for trivially copyable and resource-owning element types, at every size and capacity relation",
 "The suite runs each member function once or twice on 3-element int vectors; reallocation boundaries, empty and moved-from receivers, self-assignment, self-referencing arguments and non-trivial elements in insert/erase/resize are never combined.",
 [I+"sequence.hpp"], [("VectorBase growth, shifting and copy/move members", I+"sequence.hpp: detail::VectorBase"), ("Vector equality", I+"sequence.hpp: Vector::operator==")],
 ["size/empty/capacity/operator[]/begin/end/data/== after every step"])
prop("C02", "Fixed-size and fixed-capacity sequences act as bounded lists, all or nothing",
 "A fixed-size array always holds exactly its declared number of elements and a fixed-capacity sequence holds exactly the elements an ideal list would after the same history of constructing, converting, copying, moving, appending, inserting, erasing, popping, resizing and clearing. Their size never exceeds the declared capacity: a request that would exceed it, or that addresses a missing position, raises an error and leaves the contents unchanged. A moved-from fixed-capacity sequence is empty and reusable.",
 ["histories", "inputs"], "every history of operations on several live fixed-capacity objects of capacities 1, 2, 3, 8, ... and both plain and resource-owning elements",
 "Tests exercise single calls on ArrVec<int,3..5>; the full/empty boundaries, conversions from partly filled sources and non-trivial element types are not reached.",
 [I+"sequence.hpp"], [("capacity guards and element shifting", I+"sequence.hpp: ArrVec"), ("initializer-size guard and element-wise copy", I+"sequence.hpp: Array")],
 ["size/capacity/operator[]/begin/end/== and thrown errors after every step"])
prop("C03", "Every stored element is constructed once and destroyed once, and only used alive",
 "For every container, ring buffer, sum type, optional, queue and sequence-producing function, each element object is constructed exactly once in its storage, destroyed exactly once, and is read, assigned or destroyed only while it is alive. When the owning objects are gone no element remains alive and no memory is leaked, whatever sequence of operations was performed, including rejected ones.",
 ["histories", "inputs"], "every history of operations across all owning types and higher-order functions, with an element type that owns a resource",
 "A plain int element hides lifetime errors completely; tests use one mock type with counters on single calls, and leak checking only sees what those calls do.",
 [I+"sequence.hpp", I+"cyclic.hpp", I+"enum.hpp", I+"maybe.hpp", I+"prelude.hpp", I+"concurrency.hpp", I+"sort.hpp"],
 [("placement-new/destroy pairs", I+"sequence.hpp: Array, ArrVec, VectorBase"), ("mirrored slots", I+"cyclic.hpp: Vcb, Vcq"), ("per-alternative copy/move/destroy dispatch", I+"enum.hpp: EnumBase")],
 ["registry of live element addresses kept by the element type; leak sanitizer"])
prop("C04", "Owning strings agree with the standard string for every operation history",
 "For every character type, after any history of constructing, copying, moving, assigning, appending, adding (also to itself), inserting, erasing, resizing, extracting substrings, copying out and comparing, an owning string holds exactly the characters the standard string of that character type would hold, including embedded null characters. Comparison has the same sign as for the standard string, positions past the end are rejected with an error and no change, the null-terminated form always has the string's characters followed by a null, and string views denote exactly the viewed characters.",
 ["histories", "inputs"], "every history of string operations over char, wchar_t, char16_t and char32_t strings of any content and length, empty and default-constructed included",
 "Tests check a few literals of char only; default-constructed receivers, embedded nulls, strings of differing length in compare, and terminator space after insert are untested.",
 [I+"string.hpp", I+"sequence.hpp"], [("string specialisation of the vector", I+"string.hpp: Vector<Char,...>"), ("spare slot for the terminator", I+"sequence.hpp: VectorBase::reserve/resize/push_back"), ("string views", I+"string.hpp: VectorView<Char,...>")],
 ["size, characters, c_str, compare, ==, substr, copy, conversions"])
prop("C05", "Mapping, filtering, folding and traversal follow list semantics on all sequences",
 "Mapping applies the function to corresponding elements of all arguments in index order up to the shortest argument; filtering keeps exactly the matching elements in order; left and right folds combine elements in the documented order and association; traversals visit each index exactly once in increasing order and the mutating ones change the original elements. The result depends only on the element values, not on which sequence type holds them, and the inputs of non-mutating functions are unchanged.",
 ["inputs", "programs"], "all element values, all lengths (0 upward), one to three sequence arguments of unequal length, and all sequence kinds: fixed, bounded, dynamic, views, rings, standard containers and a user's own types that implement the open Sequence trait",
 "Tests use one or two three-element sequences per function; unequal lengths, empty inputs, most combinations of sequence kinds and call order are not covered.",
 [I+"prelude.hpp", I+"sequence.hpp", I+"trait.hpp"], [("length/nth/data trait functions", I+"sequence.hpp, "+I+"trait.hpp"), ("map, filter, foldl, foldr, for_each and indexed/mutating variants", I+"prelude.hpp")],
 ["returned sequences, recorded call traces of the passed function, inputs after the call"])
prop("C06", "Joining and product operations yield exactly the right elements in order",
 "Appending any number of sequences gives their elements in argument order; concatenation and intercalation of a sequence of sequences give the flattened elements in order, with the separator exactly between neighbours and nothing else. Cartesian traversal, mapping and index iteration visit every combination exactly once with the last argument varying fastest, and building a sequence from an index function calls it once per index in increasing order.",
 ["inputs", "programs"], "all numbers, kinds, lengths and contents of argument sequences, including empty ones anywhere",
 "The tests append copies of the same sequence, so ordering errors are invisible, and empty inner or outer sequences do not occur.",
 [I+"prelude.hpp"], [("append and pack execution order", I+"prelude.hpp: append, execute_pack"), ("concat, intercalate", I+"prelude.hpp"), ("cartesian_*, from_function", I+"prelude.hpp")],
 ["contents of results; recorded call traces"])
prop("C07", "Slicing gives in-bounds views onto the original elements for any bounds",
 "For every sequence and every requested count or bound, however large, take, drop, slice, take-while, drop-while, tail and init denote exactly the elements the list definition selects after clamping to the sequence, head and last denote the end elements, and every element seen is the very element of the source (no copy, nothing outside it). Head, last, tail and init of an empty sequence raise an error, and taking then dropping at the same point splits the sequence without loss or overlap.",
 ["inputs"], "all sequence kinds, lengths and contents and all run-time and compile-time counts and bounds from zero to far beyond the length",
 "Tests call take/drop with one or two small counts on one fixed sequence; slice, take_while and drop_while have no test and out-of-range bounds are barely touched.",
 [I+"prelude.hpp", I+"sequence.hpp"], [("bound clamping in take/drop/slice", I+"prelude.hpp"), ("view types", I+"sequence.hpp: ArrayView, ArrVecView, VectorViewBase")],
 ["view size, element addresses and values, thrown errors"])
prop("C08", "Searching reports exactly the matching positions",
 "Membership and predicate search report true exactly when some element matches; index searches report the smallest matching position, or nothing when none matches; the all-indices searches report every matching position in increasing order and no other. The answer is the same for every sequence kind holding the same elements.",
 ["inputs"], "all sequence kinds, lengths, contents with duplicates, values and predicates",
 "Tests search two or three values in one short sequence; duplicates at the ends, empty sequences and most sequence kinds are not covered.",
 [I+"prelude.hpp"], [("elem, elem_index, elem_indices, find, find_index, find_indices", I+"prelude.hpp")],
 ["returned booleans, optionals and index sequences"])
prop("C09", "Statically sized work stays off the heap and within its compile-time bounds",
 "When every argument has a compile-time size or capacity, sequence-producing functions return a sequence whose compile-time size or capacity is the documented bound (minimum for element-wise, sum for appending, product for cartesian, the input's for filtering), and neither they nor the fixed-capacity containers, views, rings, sum types, optionals and fixed-capacity queues (nor the double buffer once constructed) allocate heap memory for elements that do not allocate themselves. Results always fit the bound, for every run-time length of the inputs.",
 ["inputs", "programs"], "all operations on statically bounded arguments and all run-time lengths and contents",
 "Result types are only spot-checked by assigning to a declared type, and no test observes the allocator.",
 [I+"prelude.hpp", I+"sequence.hpp", I+"trait.hpp", I+"cyclic.hpp", I+"enum.hpp"], [("return-type computation", I+"prelude.hpp: NAryReturn, FilterReturn, AppendReturn, ConcatReturn, IntercalateReturn, CartesianMapReturn, Take/Drop/SliceReturn"), ("in-object storage", I+"sequence.hpp: RawStorage users")],
 ["global allocation counter around each operation; compile-time traits of result types"])
prop("C10", "Ring buffers always show the most recent elements, oldest first, contiguously",
 "A fixed-length ring always presents exactly the last N pushed values, oldest first, preceded by value-initialised elements until N pushes have happened; a bounded ring queue presents exactly the last N pushed and not yet removed values, removal returns the oldest, and pushing when full discards only the oldest. Indexing, iteration, the contiguous data pointer and all sequence functions show the same elements after any number of wrap-arounds, and copies, moves and assignments (also to itself) preserve the contents independently of the source.",
 ["histories", "inputs"], "every history of pushes, pops, copies, moves, assignments and reads on several rings, for capacities from 1 upward and any number of wrap-arounds, with plain and resource-owning elements",
 "Tests push a few ints into one capacity; copying a wrapped ring, emptied rings, capacity 1 and wrap-around combined with pops do not occur.",
 [I+"cyclic.hpp"], [("mirrored double buffer and wrap of read/write positions", I+"cyclic.hpp: Vcb::push_back, Vcq::push_back/pop_front"), ("copy and move members", I+"cyclic.hpp")],
 ["operator[], begin/end, data, size, empty, pop_front results"])
prop("C11", "A sum type holds one known alternative and matching runs exactly its branch",
 "After any history of construction, copying, moving, assignment and self-assignment a sum type holds exactly one alternative with the value last stored; its reported index, typed access, move-out and equality agree with that, and access as any other alternative raises an error and changes nothing. Pattern matching calls exactly one branch exactly once: the branch written for the held alternative's type if there is one, otherwise the wildcard, and returns that branch's result. This holds for every alternative of sum types with any number of alternatives from 2 to 256.",
 ["histories", "inputs", "programs"], "all histories over sum types of 2 to 256 alternatives, plain and resource-owning, every held alternative and every set of branches",
 "Tests build two- and three-alternative enums and match a couple of values; large alternative counts, cross-alternative assignment of owning types and wildcard selection per alternative are not enumerated.",
 [I+"enum.hpp", I+"meta.hpp"], [("index-dispatched copy/move/destroy/compare/match", I+"enum.hpp: EnumSwitch, EnumBase"), ("overload set with wildcard", I+"enum.hpp: Overloaded, WildCardWrapper")],
 ["index/get/move/==/match results and call traces"])
prop("C12", "Optionals obey the functor, applicative and monad laws and never invent a value",
 "An optional is either empty or holds one value, its emptiness queries always agree, and reading the value of an empty one raises an error. For every value and function, mapping, applying and binding (as members and as free functions) call the function exactly once on the held value, give empty on empty input without calling it, and satisfy the functor, applicative and monad laws. Copies, moves and assignments between empty and non-empty optionals behave as for the value they hold.",
 ["inputs", "histories"], "all values, all (also failing) functions, all combinations of empty and non-empty operands, and assignment histories",
 "Each combinator is tested on one value and one function; laws quantify over functions and values.",
 [I+"maybe.hpp", I+"enum.hpp"], [("Maybe specialisation and free functions", I+"maybe.hpp")],
 ["has_value/is_nothing/bool/value and combinator results, call counts"])
prop("C13", "Every sort returns an ordered permutation; the stable ones keep ties in order",
 "For every input sequence and every strict weak ordering, each sorting function leaves the vector ordered by that ordering and holding exactly the same elements as before. The general-purpose sort and its comparator form keep equal elements in their original relative order, as do the insertion and run-merging sorts.",
 ["inputs"], "all lengths (well beyond every internal run and merge width), all contents including many duplicates, sorted, reversed and saw-tooth inputs, all orderings, and non-trivial element types",
 "Tests sort one list of a handful of ints; nothing longer than one internal run is ever sorted, so merging code is not executed.",
 [I+"sort.hpp"], [("run sort and merge", I+"sort.hpp: timsort_by, timsort_merge, insertion_sort_by_"), ("heap, merge and quick sorts", I+"sort.hpp")],
 ["vector contents after the call, with tagged elements for stability"])
prop("C14", "Numeric reductions and scalar helpers return the mathematical result",
 "For every non-empty sequence of numbers, the maximum and minimum are the largest and smallest element, their spread is the difference, and sum and product are the left-to-right sum (from zero) and product (from one) whenever these are representable; for empty input sum and product are zero and one. Scalar helpers (minimum, maximum, clamp, absolute value, square, arithmetic, comparison and logical operators, compile-time folds) equal their mathematical definition for all representable arguments.",
 ["inputs"], "all element types (signed, unsigned, floating), values including negative-only, extreme and zero values, all lengths and sequence kinds",
 "Tests reduce one small positive sequence per function; negative-only floating data and extreme values are not used.",
 [I+"numeric.hpp", I+"meta.hpp", I+"prelude.hpp"], [("fold with identity element", I+"numeric.hpp: max_elem, min_elem, sum, product"), ("operators and clamp", I+"meta.hpp"), ("compile-time folds", I+"meta.hpp: _maximum, _minimum, _sum, _product, _all, _any")],
 ["returned numbers"])
prop("C15", "Statistics agree with their textbook definitions on every data set",
 "Mean, root mean square, error measures, variance, standard deviation, covariance, correlation, autocovariance, autocorrelation (with and without sample correction and lag adjustment), mean removal, linear regression and detrending return, up to floating-point rounding, the value their textbook definition gives for the data, for any data for which it is defined. They are consistent with one another: removing the mean leaves mean zero, detrending leaves zero slope, and covariance of data with itself is its variance.",
 ["inputs"], "all floating-point data sets of at least the size each definition needs, up to thousands of samples, all lags below the length, and all sequence kinds",
 "Each statistic is compared for one five-element constant data set; parameters (correction, adjusted, lag) and long data are hardly varied.",
 [I+"scientific.hpp", I+"numeric.hpp"], [("statistics built from map/sum/mean", I+"scientific.hpp")],
 ["returned numbers and sequences against long double references"])
prop("C16", "Concurrent queues deliver every item once, in order, with no race or lost wakeup",
 "Under every interleaving of any number of producers and consumers, every item taken from a queue was put in it, is delivered to exactly one consumer in the queue's first-in first-out order, and no item is lost unless a bounded queue was full, in which case only the oldest items are discarded. A consumer waiting on a blocking queue always resumes once an item is available for it, the non-blocking take never waits and reports empty only when the queue was empty, and the double buffer hands every item written before a swap to the reader after it in order. No operation races on shared memory.",
 ["schedules", "histories"], "every interleaving of operations of two or more threads on bounded and unbounded blocking and non-blocking queues, and of one writer and one reader on the double buffer, including spurious wakeups",
 "There is no multi-threaded test; a single-threaded call sequence cannot show a race, a lost wakeup or a reordering.",
 [I+"concurrency.hpp", I+"cyclic.hpp"], [("mutex and condition variable protocol", I+"concurrency.hpp: BlockingQ, NonBlockingQ"), ("spin lock and buffer swap", I+"concurrency.hpp: DoubleBuffer")],
 ["history of enqueue/dequeue events against a linearizable queue model; thread sanitizer; deadlock detection"])
prop("C17", "Formatting produces exactly the specified text and rejects malformed requests",
 "For every value and valid format specification (fill, alignment, sign, alternate form, zero padding, width, precision, type, positional, named and dynamic arguments), formatting yields exactly the text the standard format language specifies for integers, floating point numbers, characters, booleans, pointers and strings (a floating point number without precision and type: the shortest decimal digits that read back as the same number, in plain notation for decimal exponents -4 to 15 and scientific notation otherwise; a precision: correctly rounded digits), and literal text and escaped braces pass through unchanged. Sequences (also nested ones and sequences of strings) and rings print as their elements in order, in brackets, separated by a comma and a space. Printing writes exactly that text to the standard output, bounded formatting writes a prefix of it and reports its full length. A malformed run-time format string or mismatched argument raises an error and never yields text or touches memory outside its inputs.",
 ["inputs"], "all values of all supported argument types, all format specifications, all argument orders, and arbitrary byte strings as format strings",
 "Tests format a few literals; the space of values, widths, precisions and malformed strings is not sampled.",
 [I+"format.hpp", I+"fmt/core.h", I+"fmt/format.h", I+"fmt/format-inl.h"], [("format string parser and argument checks", I+"fmt/core.h"), ("integer, floating point and string writers", I+"fmt/format.h, "+I+"fmt/format-inl.h"), ("sequence formatters", I+"format.hpp")],
 ["formatted text against the C++20 standard formatter / printf and a sequence model; thrown errors"])
prop("C18", "Files return exactly the bytes written, for every history, and report failures",
 "Opening yields a handle exactly when the system can open the path in that mode. For every history of writes, seeks, flushes, reads, moves of the handle, closes and reopenings, the file's bytes and position are those of an ideal file in that mode, reading lines returns each line without its newline (blank lines and a final unterminated line included) and nothing at end of file, and a handle that was closed or moved from refuses operations without touching anything. A write, flush or close that the system fails is reported as a failure, and every opened file is closed exactly once.",
 ["histories", "fault_sequences", "inputs"], "all histories of operations on several handles in text and binary modes, all byte contents including null and newline bytes, and device-full failures at any write, flush or close",
 "The file module has no test at all.",
 [I+"io.hpp", I+"string.hpp"], [("handle ownership and mode-dependent writing", I+"io.hpp: File"), ("line reader", I+"io.hpp: File::read_line, read_lines")],
 ["bytes on disk, return values, number of open descriptors"])
prop("C19", "Tuples, composition and callable adapters preserve values, order and effects",
 "A tuple holds exactly the values it was built from in order: indexed access, first and second, equality, copying, assignment, structured application and mutation through references all see and change just the addressed component. Composing functions calls each exactly once, right to left, and equals applying them in nested fashion; the identity function returns its argument; a plain function pointer made from a callable object calls that very object (of several objects of one type, the one adapted last) with the given arguments and returns its result.",
 ["inputs", "programs"], "all component values and types (also non-trivial ones), arities, chains of functions and arguments",
 "Tests build one tuple of small ints and compose two functions once.",
 [I+"meta.hpp", I+"prelude.hpp", I+"c_utility.hpp"], [("tuple leaves, get, apply", I+"meta.hpp: Tuple, TupleLeaf, apply"), ("Composed", I+"prelude.hpp: compose"), ("stored callable address", I+"c_utility.hpp: func_ptr")],
 ["component values, call traces and results"])
prop("C20", "Containers use only their allocator and give back exactly what they took",
 "A dynamic vector or string with a given allocator obtains all its memory from that allocator and no other source, and over its whole history returns every block exactly once, through an equal allocator, with the same element count it requested. It never touches memory beyond a requested block, and its contents behave as with the default allocator. When the allocator refuses a block, its error reaches the caller and appending, inserting, resizing, reserving or shrinking has changed nothing.",
 ["histories", "configurations", "fault_sequences"], "every history of container operations with counting, stateless and stateful allocators, and the library's own freestanding allocator, with a refusal at any allocation",
 "No test instantiates a container with another allocator, and the default allocator ignores a wrong block size.",
 [I+"sequence.hpp", I+"string.hpp", I+"allocator.hpp"], [("allocator calls through traits", I+"sequence.hpp: VectorBase"), ("allocator parameter of Vector and String", I+"sequence.hpp: Vector, "+I+"string.hpp")],
 ["ledger kept by the allocator; global allocation counter; contents against a list"])
prop("C21", "Programs give the same results under every supported language standard",
 "A program using the library's public features computes the same results when compiled as C++11, C++14, C++17, C++20 or C++23, at any optimisation level and with any conforming compiler.",
 ["configurations", "inputs"], "all supported language standards, both available compilers, optimised and unoptimised builds, and all inputs to a program that exercises every feature area",
 "The test programs for the different standards check the same few fixed inputs, the one named for C++11 is not compiled as C++11, and results are never compared across builds.",
 [I+"meta.hpp", I+"enum.hpp", I+"prelude.hpp", I+"string.hpp", I+"fmt/core.h"], [("standard-dependent definitions", I+"meta.hpp: Negation, IsInvocable, InvokeResult; "+I+"enum.hpp: Overloaded"), ("evaluation-order independence", I+"prelude.hpp: append")],
 ["digest of all results per input, compared across builds"])
prop("C22", "A view denotes exactly its elements, however it was made, copied or converted",
 "A fixed-size, bounded or dynamic view made from a pointer and a length denotes exactly those elements of the underlying storage, in order, by address: size, emptiness, indexing, iteration and data agree with the storage as it is now, and the view owns nothing. Copies, assignments and conversions from a more static to a less static view denote the same elements, two views of one kind are equal exactly when they denote the same elements of the same storage, a default view denotes nothing, and a non-empty view of a null pointer is refused with an error.",
 ["histories", "inputs"], "every history of making, copying, assigning, converting and comparing views of any kind, extent and element type over one storage that may change underneath",
 "Tests construct one view per kind from one array; partial and empty extents, conversions between kinds, assignment, equality of different extents and null pointers are hardly covered.",
 [I+"sequence.hpp"], [("view constructors, conversions and equality", I+"sequence.hpp: ArrayView, ArrVecView, detail::VectorViewBase")],
 ["addresses and values of elements, size/empty/capacity/data/begin/end, ==, thrown errors"])
prop("C23", "A match compiles exactly when its branches cover every alternative",
 "A match over a sum type or an optional is accepted by the compiler exactly when ordinary overload resolution among its branches finds one for every alternative, every branch is usable for at least one alternative, and a wildcard branch, if there is one, comes last; a match that misses an alternative, is ambiguous for one, or has a useless branch does not compile. An accepted match runs, for every alternative, the branch ordinary overload resolution picks, the wildcard catching what no better branch takes. A sum type is built only from values of exactly one of its alternatives, and asking for something that is not an alternative never succeeds.",
 ["programs", "configurations"], "all sets of alternatives (plain, derived, mutually convertible, move-only), all sets and orders of branches taking values or constant references, with and without wildcards and generic branches, under every supported language standard and both compilers",
 "A test suite has to compile, so it contains no match that must be rejected, and the accepted matches it has are a handful without conversions between alternatives.",
 [I+"enum.hpp", I+"meta.hpp", I+"maybe.hpp"], [("branch validation and overload set", I+"enum.hpp: PatternCheck, Overloaded, WildCardWrapper, EnumBase::match"), ("invocability traits", I+"meta.hpp: IsInvocable, InvokeResult, Arguments")],
 ["compiler's verdict on generated programs; branch run for every alternative"])
prop("C24", "An error thrown by a user function reaches the caller and leaves all intact",
 "When a function, predicate, comparator or formatter given to the library throws at any of its calls, that very error reaches the caller of the library, no further call is made, and the calls up to it were those of the undisturbed run. The arguments read are unchanged, a traversal that changes elements has changed exactly the elements visited, and a sort broken off this way leaves the sequence at its length with every element alive and usable. Nothing leaks and every element made on the way is destroyed exactly once.",
 ["fault_sequences", "inputs", "histories"], "all functions that call user code (mapping, filtering, folding, traversal, searching, slicing by predicate, cartesian products, sorting, matching, optionals, tuples, composition, adapters, formatting), all sequence kinds, and a throw at every call",
 "No test passes a function that throws.",
 [I+"prelude.hpp", I+"sort.hpp", I+"sequence.hpp", I+"maybe.hpp", I+"enum.hpp", I+"meta.hpp", I+"c_utility.hpp"], [("results built element by element", I+"prelude.hpp: map, filter, from_function"), ("exchanges between comparisons", I+"sort.hpp"), ("branch call", I+"enum.hpp: EnumBase::match; "+I+"maybe.hpp: fmap, bind")],
 ["identity of the error, trace of calls, contents of the arguments, ledger of element lifetimes, leak checker"])
prop("C25", "Separate uses do not interfere: threads and nested calls see no hidden state",
 "Any number of threads may read one shared object through its constant operations while others do so too, and may use separate objects in any way, at the same time: every result is the one the same call gives alone, and no two of them race on memory. Likewise a function, predicate, comparator or formatter called by the library may itself use the library, the same operation included, and neither the inner nor the outer call changes its result. (A function pointer made from a callable is per type of callable by its contract and not meant here.)",
 ["schedules", "inputs", "programs"], "all public operations on sequences, strings, rings, sum types, optionals, tuples, files, queues, sorting, numbers, statistics and formatting, run by two or more threads at once or from within a user function of another call to any depth",
 "There is no multi-threaded test and no test whose callbacks call the library.",
 [I+"prelude.hpp", I+"sort.hpp", I+"sequence.hpp", I+"string.hpp", I+"io.hpp", I+"format.hpp", I+"numeric.hpp", I+"scientific.hpp", I+"enum.hpp", I+"fmt/format.h"], [("temporary storage of sorts", I+"sort.hpp: merge"), ("line buffer", I+"io.hpp: File::read_line"), ("constant reads", I+"sequence.hpp, "+I+"string.hpp, "+I+"cyclic.hpp")],
 ["results against the same call alone; thread sanitizer"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
