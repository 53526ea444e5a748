"""Build variants and the jobs of every check."""
SAN = "-g1 -O0 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=nonnull-attribute -ftrivial-auto-var-init=pattern"
VARIANTS = {
    "g11": ("g++", "-std=c++11 " + SAN),
    "g14": ("g++", "-std=c++14 " + SAN),
    "g17": ("g++", "-std=c++17 " + SAN),
    "g20": ("g++", "-std=c++20 " + SAN),
    "g23": ("g++", "-std=c++23 " + SAN),
    "c11": ("clang++", "-std=c++11 " + SAN),
    "c14": ("clang++", "-std=c++14 " + SAN),
    "c17": ("clang++", "-std=c++17 " + SAN),
    "c20": ("clang++", "-std=c++20 " + SAN),
    "c23": ("clang++", "-std=c++23 " + SAN),
    "g17o": ("g++", "-std=c++17 -O2 -g1"),
    "c14o": ("clang++", "-std=c++14 -O2 -g1"),
    "g11o": ("g++", "-std=c++11 -O2 -g1"),
    "c20o": ("clang++", "-std=c++20 -O2 -g1"),
    "fuzz": ("clang++", "-std=c++17 -g1 -O1 -fsanitize=fuzzer,address,undefined -fno-sanitize-recover=all -fno-sanitize=nonnull-attribute"),
    "tsan": ("g++", "-std=c++17 -g1 -O1 -fsanitize=thread"),
}
CHECKS = {}
def simple(pid, src, rule, quick, thorough, qt=60, tt=600, fuzz=True, fuzz_seconds=240, **kw):
    """quick/thorough: {variant: (shards, cases)}"""
    CHECKS[pid] = dict(rule=rule,
        jobs=dict(quick=[(src, v, s, n, qt) for v, (s, n) in quick.items()],
                  thorough=[(src, v, s, n, tt) for v, (s, n) in thorough.items()]),
        fuzz=[src] if fuzz else [], fuzz_seconds=fuzz_seconds, **kw)

simple("C01", "c01_vector.cpp",
    "random histories of 1-61 public operations over 4 live vectors of int, lifetime-tracking or std::string elements (mostly short, now and then hundreds, rarely up to 70000 elements); non-trivial: at least 4 operations and some vector reached 2 elements; distinct by the hash of all choices",
    {"g11": (2, 30000), "c20": (2, 30000), "g17o": (3, 200000)},
    {"g11": (2, 400000), "g17": (2, 400000), "c14": (2, 400000), "c20": (2, 400000), "g23": (2, 400000), "g17o": (4, 3000000), "c14o": (4, 3000000)})

simple("C02", "c02_fixed.cpp",
    "random histories of 1-51 operations over 3 live fixed-capacity (or fixed-size) sequences of capacity 1, 3, 5, 16, 40 or 300 and int, lifetime-tracking or std::string elements; non-trivial: the capacity was reached and some request was rejected (fixed-capacity), or at least 5 operations (fixed-size); distinct by the hash of all choices",
    {"g11": (2, 40000), "c20": (2, 40000), "g17o": (3, 300000)},
    {"g11": (2, 400000), "g17": (2, 400000), "c14": (2, 400000), "c20": (2, 400000), "g23": (2, 400000), "g17o": (4, 4000000), "c14o": (4, 4000000)})

simple("C04", "c04_string.cpp",
    "random histories of 1-51 operations over 3 live strings of char, wchar_t, char16_t, char32_t (and char8_t from C++20) with characters from a small alphabet, null, high and arbitrary values (short texts, 1 in 40 of 10 to 70000 characters); non-trivial: at least 4 operations and some string of 3 or more characters; distinct by the hash of all choices",
    {"g11": (2, 60000), "c20": (2, 60000), "g17o": (3, 400000)},
    {"g11": (2, 600000), "g17": (2, 600000), "c14": (2, 600000), "c20": (2, 600000), "g23": (2, 600000), "g17o": (4, 6000000), "c14o": (4, 6000000)})

simple("C10", "c10_ring.cpp",
    "random histories of 1-61 operations over 3 live rings of capacity 1, 2, 3, 8, 40 or 300 and int, lifetime-tracking or std::string elements; non-trivial: at least one full wrap-around of discarded elements; distinct by the hash of all choices",
    {"g11": (2, 40000), "c20": (2, 40000), "g17o": (3, 300000)},
    {"g11": (2, 400000), "g17": (2, 400000), "c14": (2, 400000), "c20": (2, 400000), "g23": (2, 400000), "g17o": (4, 4000000), "c14o": (4, 4000000)},
    known="known_c10.cpp",
    assumptions=["the generated histories do not assign to elements in place (listed finding ring-element-assignment)"])

simple("C05", "c05_hof.cpp",
    "random calls of the mapping, filtering, folding and traversal functions on one to three generated sequences (fixed, bounded, dynamic, views, rings, standard containers, a user's own types; int, double, lifetime-tracking and std::string elements, also mixed; functions taking arguments by reference or using them up; mostly up to 24 elements, 1 in 24 of 10 to 70000) with generated functions; non-trivial: one argument of at least 2 elements, or several arguments with a non-empty common part (of unequal length for two); distinct by the hash of all choices",
    {"g11": (3, 100000), "c20": (3, 100000)},
    {"g11": (2, 2000000), "g17": (2, 2000000), "c14": (2, 2000000), "c20": (2, 2000000), "g23": (2, 2000000), "g17o": (2, 20000000)})

simple("C06", "c06_join.cpp",
    "random calls of append, concat, intercalate, cartesian traversal/mapping, index iteration and from_function on generated sequences of all kinds (int and lifetime-tracking elements; mostly short, 1 in 24 of 10 to 300 or, for one argument, 70000), including nested sequences; non-trivial: at least two non-empty arguments (or inner sequences) with different contents; distinct by the hash of all choices",
    {"g11": (3, 100000), "c20": (3, 100000)},
    {"g11": (2, 2000000), "g17": (2, 2000000), "c14": (2, 2000000), "c20": (2, 2000000), "g23": (2, 2000000), "g17o": (2, 20000000)})

simple("C07", "c07_slice.cpp",
    "random slicing calls with counts and bounds from 0 to 2^64-1 (run time and compile time), chains of up to 8 slicings of views, on all sequence kinds (mostly short, 1 in 24 of 10 to 70000 elements); non-trivial: a source of at least 2 elements, or a chain of 2 or more steps still denoting elements; distinct by the hash of all choices",
    {"g11": (3, 150000), "c20": (3, 150000)},
    {"g11": (2, 3000000), "g17": (2, 3000000), "c14": (2, 3000000), "c20": (2, 3000000), "g23": (2, 3000000), "g17o": (2, 30000000)})

simple("C08", "c08_search.cpp",
    "random searches for values and predicates in generated sequences of all kinds (int, std::string, char, double elements; up to 300, rarely up to 70000 elements) with frequent duplicates; non-trivial: more than one position matches; distinct by the hash of all choices",
    {"g11": (3, 150000), "c20": (3, 150000)},
    {"g11": (2, 3000000), "g17": (2, 3000000), "c14": (2, 3000000), "c20": (2, 3000000), "g23": (2, 3000000), "g17o": (2, 30000000)})

CHECKS["C11"] = dict(
    rule="random histories of 1-25 operations over 3 live sum types of 2, 3, 4, 5, 8, 9, 16, 17, 33, 40, 64, 65, 128, 129 or 256 alternatives (plain, resource-owning and mutually convertible ones), matched with full and partial branch sets; non-trivial: at least one assignment, or a match over convertible alternatives; distinct by the hash of all choices",
    jobs=dict(
        quick=[("c11_enum_p0.cpp", "g11", 1, 30000, 60), ("c11_enum_p0.cpp", "c20", 2, 30000, 60), ("c11_enum_p1.cpp", "g17", 1, 20000, 60),
               ("c11_enum_p2.cpp", "c11", 1, 20000, 60), ("c11_enum_p3.cpp", "c14", 1, 20000, 60),
               ("c11_enum_p4.cpp", "c17", 1, 20000, 60), ("c11_enum_p5.cpp", "c17", 1, 20000, 60)],
        thorough=[("c11_enum_p0.cpp", v, 2, 600000, 500) for v in ("g11", "g14", "g17", "c20", "g23", "c11")] +
                 [("c11_enum_p0.cpp", "g17o", 2, 3000000, 500), ("c11_enum_p0.cpp", "c14o", 2, 3000000, 500)] +
                 [("c11_enum_p%d.cpp" % p, v, 1, 300000, 500) for p in (1, 2, 3, 4, 5) for v in ("c17", "g20")]),
    fuzz=["c11_enum_p0.cpp"], fuzz_seconds=240)

simple("C12", "c12_maybe.cpp",
    "random law instances (generated values, functions and failing functions over int, double, std::string and lifetime-tracking values) and histories of 1-25 operations over 3 live optionals; non-trivial: a present value was mapped or bound, or a history assigned one; distinct by the hash of all choices",
    {"g11": (2, 40000), "c11": (1, 40000), "c20": (2, 40000), "g17o": (2, 200000)},
    {"g11": (2, 600000), "g17": (2, 600000), "c14": (2, 600000), "c20": (2, 600000), "g23": (2, 600000), "g17o": (3, 4000000), "c14o": (2, 4000000)})

simple("C13", "c13_sort.cpp",
    "random vectors of 0-700 (rarely up to 10000) elements (random, few distinct values, sorted, reversed, saw-tooth, stepped, nearly sorted) of plain, lifetime-tracking, std::string and double elements, sorted by each of the 13 sorting functions under 6 orderings; non-trivial: more than 32 elements; distinct by the hash of all choices",
    {"g11": (2, 30000), "c20": (2, 30000), "g17o": (3, 300000)},
    {"g11": (2, 300000), "g17": (2, 300000), "c14": (2, 300000), "c20": (2, 300000), "g23": (2, 300000), "g17o": (3, 5000000), "c14o": (2, 5000000)})

simple("C14", "c14_numeric.cpp",
    "random reductions, folds and scalar operations over int, long long, unsigned, size_t, short, unsigned char, float and double values (small, negative-only, extreme, infinite for maximum and minimum) in fixed, bounded, dynamic, ring, view and standard sequences; sums and products whose prefixes are representable; non-trivial: more than one element or operand; distinct by the hash of all choices",
    {"g11": (3, 300000), "c20": (3, 300000), "g17o": (2, 1000000)},
    {"g11": (2, 5000000), "g17": (2, 5000000), "c14": (2, 5000000), "c20": (2, 5000000), "g23": (2, 5000000), "g17o": (2, 60000000), "c14o": (2, 60000000)})

simple("C15", "c15_stats.cpp",
    "random data sets of 1-80000 float or double samples (integers, fractions, offset noise, trend, wave, negative-only, wide magnitudes) in fixed, bounded, dynamic, ring and view sequences, every statistic with every combination of sample correction, adjustment and a random lag; non-trivial: at least 2 samples with non-zero variance; distinct by the hash of all choices",
    {"g11": (3, 40000), "c20": (3, 40000), "g17o": (2, 150000)},
    {"g11": (2, 800000), "g17": (2, 800000), "c14": (2, 800000), "c20": (2, 800000), "g23": (2, 800000), "g17o": (2, 8000000), "c14o": (2, 8000000)},
    assumptions=["IEEE arithmetic without contraction or fast-math; the tolerance bounds the rounding of the two-pass formulas"])

CHECKS["C16"] = dict(
    rule="(a) random operation plans of 2-4 threads (1-4 operations each) on blocking and non-blocking, bounded and unbounded queues and of a writer and a reader on the double buffer, under generated schedules (every lock, wait, notify, atomic access and element copy is a scheduling point, spurious wakeups included); non-trivial: at least 3 context switches and both puts and takes; (b) the same structures under 2-6 real threads with the thread sanitizer; distinct by the hash of all choices, for (a) including the schedule",
    jobs=dict(
        quick=[("c16_sched.cpp", "g17o", 3, 250000, 60), ("c16_sched.cpp", "c14o", 1, 250000, 60), ("c16_threads.cpp", "tsan", 2, 4000, 40)],
        thorough=[("c16_sched.cpp", "g17o", 3, 12000000, 600), ("c16_sched.cpp", "c14o", 2, 12000000, 600), ("c16_sched.cpp", "g11o", 1, 12000000, 600), ("c16_threads.cpp", "tsan", 2, 200000, 600)]),
    optional=("c16_sched.cpp",),
    assumptions=["the generated schedules are sequentially consistent; weaker orderings are judged by the thread sanitizer only"])

simple("C19", "c19_tuple.cpp",
    "random histories over 3 live tuples of 0-12 components (plain, resource-owning and nested), compositions of 1-7 functions over int, std::string and lifetime-tracking values (also references, move-only values, several arguments), and histories of adapting and calling 8 kinds of callables; non-trivial: at least 2 components, at least 2 functions, or an adapter re-targeted; distinct by the hash of all choices",
    {"g11": (2, 50000), "c20": (2, 50000), "g17": (2, 50000)},
    {"g11": (2, 1000000), "g17": (2, 1000000), "c14": (2, 1000000), "c20": (2, 1000000), "g23": (2, 1000000), "g17o": (2, 6000000)})

simple("C18", "c18_file.cpp",
    "random histories of 1-28 operations over 3 file handles and 4 files in 16 modes (plus a directory and a missing directory), contents with newline, null, 0xff and arbitrary bytes and occasionally beyond the buffer size; histories on the always-full device, and histories under a random file size limit (a write fails part-way); non-trivial: at least 6 operations, or a failing device; distinct by the hash of all choices",
    {"g11": (2, 20000), "c20": (2, 20000), "g17o": (2, 40000)},
    {"g11": (2, 400000), "g17": (1, 400000), "c14": (1, 400000), "c20": (2, 400000), "g23": (1, 400000), "g17o": (1, 1000000)}, fuzz_seconds=180,
    assumptions=["the standard C library and the file system are right; position rules of update streams (a seek between reading and writing) are respected by the generator"])

simple("C03", "c03_life.cpp",
    "random histories of 1-41 operations over 3 boxes of raw memory for 43 owning types (dynamic, bounded and fixed sequences, rings, optionals, sum types, tuples, also nested in one another; copyable, move-only, over-aligned and heap-owning elements), calls of the sequence functions, sorts and queues over lifetime-tracking elements; non-trivial: at least 8 operations, or a sequence of 2 or more elements; distinct by the hash of all choices",
    {"g11": (2, 100000), "c20": (3, 100000), "g17o": (2, 500000)},
    {"g11": (2, 2000000), "g17": (2, 2000000), "c14": (2, 2000000), "c20": (2, 2000000), "g23": (2, 2000000), "g17o": (3, 15000000), "c14o": (2, 15000000)})

simple("C09", "c09_static.cpp",
    "random calls of the mapping, filtering, joining, product, slicing, searching, numeric and statistical functions on one or two statically sized or bounded sequences (fixed, bounded, rings, views, std::array; int, double and lifetime-tracking elements), and histories of 1-41 operations over 23 statically bounded types and fixed-capacity queues, with every heap allocation counted; non-trivial: a non-empty argument (of unequal lengths for two), or at least 8 operations; distinct by the hash of all choices",
    {"g11": (2, 150000), "c20": (2, 150000), "g17o": (2, 1000000)},
    {"g11": (2, 3000000), "g17": (2, 3000000), "c14": (2, 3000000), "c20": (2, 3000000), "g23": (2, 3000000), "g17o": (2, 40000000), "c14o": (2, 40000000)},
    assumptions=["the exception object of a refused operation is allocated by the C++ run-time system and not counted"])

simple("C17", "c17_format.cpp",
    "random format strings (valid ones for the given arguments, mutated ones, strings of format characters and arbitrary bytes) with 1-22 run-time arguments of 35 types (integers, floating point numbers with extreme, subnormal, boundary and arbitrary bit patterns, characters, booleans, pointers, strings with characters of 1 to 4 bytes and of double width, sequences, rings), 3 to 18 arguments through the library's own call, named arguments, joined sequences, numbers at exact ties and next to powers of two, single values with a random specification, constant format strings, captured print and println; against a reference implementation of the format language and, under C++20 with libstdc++, std::format; non-trivial: a specification or an error is expected; distinct by the hash of all choices",
    {"g11": (2, 120000), "c20": (2, 120000), "g20": (2, 80000), "g17o": (2, 600000)},
    {"g11": (2, 2000000), "g17": (2, 2000000), "c14": (2, 2000000), "c20": (2, 2000000), "g20": (2, 2000000), "g23": (2, 2000000), "g17o": (2, 40000000), "c14o": (2, 40000000)},
    known="known_c17.cpp",
    assumptions=["not judged, only run (the vendored formatter goes beyond or differs from the standard language there): sign on unsigned arguments, debug type, precision of text with double-width characters, alternate form without a type, hexadecimal floats other than plain double, default alignment and zero padding of infinities and NaN, wide characters, widths and precisions above 5000"])

simple("C20", "c20_alloc.cpp",
    "random histories of 1-40 operations over 3 live vectors or strings (int, unsigned char, lifetime-tracking elements; char and char32_t strings) with stateful allocators of 3 arenas, a stateless allocator and the library's own, with injected allocation failures; non-trivial: at least 4 operations with more than two blocks taken; distinct by the hash of all choices",
    {"g11": (2, 60000), "c20": (2, 60000), "g17o": (3, 500000)},
    {"g11": (2, 1500000), "g17": (2, 1500000), "c14": (2, 1500000), "c20": (2, 1500000), "g23": (2, 1500000), "g17o": (3, 20000000), "c14o": (2, 20000000)})

simple("C22", "c22_view.cpp",
    "random histories of 1-31 constructions, copies, assignments, conversions, comparisons and null-pointer constructions over 9 live views (fixed-size, bounded, dynamic; of constant and changeable elements; int, std::string and lifetime-tracking) of one generated array that changes underneath; non-trivial: a conversion between view kinds over at least 2 elements; distinct by the hash of all choices",
    {"g11": (2, 60000), "c20": (2, 60000), "g17o": (2, 400000)},
    {"g11": (2, 1000000), "g17": (2, 1000000), "c14": (2, 1000000), "c20": (2, 1000000), "g23": (2, 1000000), "g17o": (2, 12000000), "c14o": (2, 12000000)})

import c21
simple("C21", c21.HARNESS,
    "random programs over all parts of the library (sequence functions, containers, rings, strings, sum types, optionals, tuples, adapters, sorting, numbers, statistics, formatting, files, type traits), with every result, call of a user function and error written to an observation text; the texts of the same case are compared between all builds; every case is non-trivial; distinct by the hash of all choices",
    {"g17o": (1, 60000)}, {"g17o": (2, 2000000)}, fuzz=False, custom=c21.custom,
    assumptions=["x86-64: no fused multiply-add and no excess precision, so floating point results have to agree bit for bit", "floating point results use only operations that are correctly rounded"])

simple("C24", "c24_throw.cpp",
    "random calls of every function that takes user code (mapping, filtering, folding, traversal, searching, slicing, products, 11 sorts, match, optionals, tuples, composition, adapters, formatting) on generated sequences of lifetime-tracking elements, first undisturbed to count the calls, then with a throw at a drawn call; non-trivial: the undisturbed run makes at least two calls; distinct by the hash of all choices",
    {"g11": (3, 40000), "c20": (3, 40000)},
    {"g11": (2, 1000000), "g17": (2, 1000000), "c14": (2, 1000000), "c20": (2, 1000000), "g23": (2, 1000000)},
    assumptions=["the elements' own operations do not throw"])

CHECKS["C25"] = dict(
    rule="random plans of 2-4 threads with 2-6 operations each (30 kinds: constant reads of 15 shared objects, and modifying work on objects of the thread's own), half of them with few kinds of operation, with the expected results computed before or after the threads run, under the thread sanitizer and under the address sanitizer; random nestings of operations to depth 3, the inner one run at a drawn call of the outer one's user function; non-trivial: threads, or a nested operation that ran; distinct by the hash of all choices",
    jobs=dict(
        quick=[("c25_apart.cpp", "tsan", 3, 10000, 60), ("c25_apart.cpp", "g11", 1, 20000, 60), ("c25_apart.cpp", "c20", 2, 20000, 60)],
        thorough=[("c25_apart.cpp", "tsan", 4, 500000, 600), ("c25_apart.cpp", "g11", 1, 800000, 600), ("c25_apart.cpp", "c20", 1, 800000, 600), ("c25_apart.cpp", "g17o", 2, 4000000, 600)]),
    known="known_c25.cpp",
    assumptions=["threads run under the operating system's schedules; races are judged by the thread sanitizer's happens-before relation, not by luck of timing", "the generated threads do not call c_str() on a shared string (listed finding c-str-writes)"])

import c23
CHECKS["C23"] = dict(
    rule="random programs that match (with 1 to 18 branches: by value, by constant reference, generic, wildcard, lambdas and function objects, missing, superfluous, misplaced and convertible ones), build or read a sum type of 1 to 17 alternatives drawn from 24 plain, derived, mutually convertible, move-only and enumeration types, or an optional; the oracle is the compiler's overload resolution on the plain overload set plus the relevance and wildcard rules; accepted programs are also run on every alternative; non-trivial: at least two alternatives; distinct by the program",
    custom=c23.custom,
    assumptions=["both compilers resolve ordinary overloads as the language says"])
