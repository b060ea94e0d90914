"""Configuration of the checks: what is built and how, per property."""
TRUST = [
    "mp++ is not installed: /verif/env/mp++ stands in for it (on GMP); validated by obake's own full test suite",
    "gcc 13, libstdc++, Boost 1.83 (with one overlay, see env/README.md), fmt, GMP",
    "oneTBB is replaced by /verif/env_tbb, which runs tasks in an order chosen by the checker",
]
# The parts of the other checks that are explored once more with the sanitizers, on thinner universes.
MEMORY_PARTS = [("P01", 4, ""), ("P01", 6, ""), ("P02", 6, ""), ("P04", 4, ""), ("P09", 4, ""), ("P09", 6, "two operations"), ("P12", 2, ""),
                ("P13", 2, ""), ("P15", 2, ""), ("P16", 1, ""), ("P17", 1, ""), ("P18", 1, ""), ("P18", 3, ""), ("P20", 1, ""), ("P21", 6, ""), ("P26", 1, ""), 
                ("P29", 1, ""), ("P30", 1, ""), ("P42", 1, ""), ("P24", 0, ""), ("P32", 0, "every_"), ("P44", 0, ""), ("P44", 3, "")]
CHECKS = {
    "P43": {"san": True, "src": [{"file": "h/%s.cpp" % p, "flags": ["-O1", "-DTHIN=5", "-DPART=%d" % k, '-DSCENARIO_PREFIX="%s.%d "' % (p, k), '-DSCENARIO_SKIP="%s"' % x]} for p, k, x in MEMORY_PARTS] + [{"file": "h/P44_mem.cpp", "flags": ["-O1"]}],
            "note": "23 parts of the explorations of the other properties (arithmetic, both multiplication algorithms, truncation, failures of coefficients and of memory at every point, calculus, substitution, text, archives, factories, power series, monomials, symbol sets, iteration), on a fixed part of their universes, with every memory access and the arithmetic of the real code monitored (address and undefined behaviour sanitizers)", "technique": "bounded-exhaustive exploration of operation histories, inputs and fault points on the real code, every execution monitored for memory errors and undefined operations (sanitizer instrumentation)"},
    "P01": {"parts": 7, "note": "all pairs of a bounded universe of polynomials (<= 2 terms, <= 2 symbols, several coefficient types and segmentations), all operator forms and aliasings, against sparse reference arithmetic"},
    "P02": {"parts": 7, "note": "all pairs of bounded universes of polynomials (<= 3 terms, <= 3 symbols) and scalars, both multiplication algorithms, all operator forms and aliasings, against sparse reference arithmetic"},
    "P04": {"parts": 6, "note": "all pairs of bounded universes x all limits around the reachable degrees x symbol subsets, total and partial degree, both algorithms, both operand orders"},
    "P05": {"parts": 6, "note": "all products of one- and two-term polynomials whose exponents range over the values at, near and halfway to the packing limits, packed and d_packed, both algorithms, truncated and plain"},
    "P06": {"parts": 4, "note": "all histories of up to 3 (thorough: 4) power requests over bases that collide in a cache (same keys, other coefficients, symbol sets, segmentations, types), exponents of integral, multi-precision, rational and floating-point types, power series that differ in the truncation only, with overflows, rejected exponents, cache clearing and mutation of results and bases in between; powers up to 300 (monomials: 1000); sweeps over a universe of bases"},
    "P08": {"parts": 6, "note": "all pairs of bounded universes of polynomials in all their representations (symbol sets, segmentations, coefficient types, ranks) and scalars, of power series with all pairs of truncations, plus results of operations compared with each other, against equality of the reference values (and truncations)"},
    "P09": {"parts": 10, "note": "all histories of up to 3 (thorough: 4-5) public mutating operations on two series, compared to a model after each step; every operation on all pairs of a universe interrupted by a coefficient failure at every possible point; some 80 further public operations (conversions, mixed types, calculus, substitution, truncation, filters, symbols, archives) alone and in pairs, invariants checked after each"},
    "P10": {"parts": 6, "note": "all (pairs of) members of bounded universes: copies, moves, swaps, assignments, conversions between coefficient types, scalars, ranks and tags, each compared to the source's value, symbols, segments and tag"},
    "P11": {"parts": 5, "note": "all members of bounded universes x a set of scalars of five types: negation, multiplication, division in all forms, division by zero, nested coefficients, against per-coefficient reference arithmetic"},
    "P12": {"parts": 6, "note": "derivatives and antiderivatives of all members of bounded universes (flat and nested, several key and coefficient types) with respect to present and absent symbols, against reference calculus; single terms with all exponents at the packing limits"},
    "P13": {"parts": 7, "note": "all members of bounded universes x all assignments of a set of values (integers, rationals, doubles, polynomials) to every subset of a set of names, evaluation and substitution, exponents up to 40001, flat and nested, against direct computation"},
    "P14": {"parts": 5, "note": "total degree and partial degree with respect to every subset of a set of names, of all members of bounded universes (flat and nested, all key types, mixed signedness), and of single terms with all combinations of exponents at the packing limits, against the maximum over the terms"},
    "P15": {"parts": 4, "note": "all members of bounded universes x all limits around the degrees of the terms (of several types) x subsets of names, total and partial degree, applied once and twice; pairs of terms with all combinations of exponents at the packing limits"},
    "P16": {"parts": 5, "note": "all members of bounded universes (flat, nested, truncated power series; all key types): trimming, addition of every subset of a set of names, filtering by every subset of the terms, filtering with a predicate failing at every call, against the terms of the operand"},
    "P17": {"parts": 5, "note": "text, TeX and coefficient output of all members of bounded universes (flat, nested up to rank 3, truncated power series, 1 to 200 terms, exponents at the packing limits), read back by a parser and compared to the series"},
    "P18": {"parts": 4, "note": "all pairs (saved object, destination) of bounded universes of series, monomials and symbol sets, all sequences of up to 3 (thorough: 4) objects of a kit of several kinds in one binary or text archive, archives cut at every byte; up to 1100 terms in 512 segments"},
    "P19": {"parts": 6, "note": "all pairs of bounded universes of nested polynomials (rank 2 and 3, disjoint and shared names, several key types) with nested, flat and scalar operands: arithmetic, equality, powers, degrees, evaluation, trimming, against the flattened polynomials"},
    "P20": {"parts": 5, "note": "all lists of up to 3 names (thorough: 4) out of 6 x all 64 symbol sets over them x all truncation settings, all key types and ways to pass a string; symbol sets of 1 to 26 (not packed into one integer: 300) symbols; truncation limits around the ends of the degree types"},
    "P21": {"parts": 8, "note": "all pairs of bounded universes of power series x truncation settings (none, total, partial), several key and coefficient types, all operator forms and aliasings and follow-up operations; scalars; powers, integrals, derivatives (machine integers included); substitution of numbers and of series; polynomials with truncated series as coefficients; against truncated sparse reference arithmetic"},
    "P22": {"parts": 4, "note": "all pairs of bounded universes of power series x all pairs of 16 truncation settings, all operator forms, lvalues and rvalues: inherited, or rejected with both operands intact and usable; all histories of up to 4 (thorough: 5) operations on two series"},
    "P23": {"parts": 3, "note": "all histories of up to 2 (thorough: 3) truncation settings on all members of bounded universes, then every observer and carrier of the setting (query, text, TeX, hash, copy, move, assignment and swap with every other setting, archives); limits of several types around the ends of the degree types"},
    "P24": {"note": "all pairs of subsets of 8 (thorough: 10) names and all triples of subsets of 5 (7) names, pairs of sets of up to 600 names: union, insertion maps, intersections, shared storage, against ordered-set reference operations"},
    "P25": {"src": [{"file": "h/P25.cpp", "flags": ["-O2", "-DPART=0"]}, {"file": "h/P25.cpp", "flags": ["-O2", "-DNDEBUG", "-DPART=1"]}],
            "note": "all vectors over alphabets of edge values and all sparse vectors, of every size, all four types; all codes of the 32-bit types (quick: of the two largest sizes) against an odometer; all pairs of components for additivity; values, codes and sizes around every limit and power of two"},
    "P26": {"parts": 4, "note": "all pairs of vectors of exponents over alphabets of edge values (all numbers of symbols, packed and d_packed, all exponent types) whose product is representable; all bases x exponents of seven types around every limit, non-integral ones included, against 128-bit and multi-precision arithmetic"},
    "P27": {"parts": 4, "note": "all vectors of exponents over alphabets of edge values and beyond, of seven types, through every constructor; all pairs for equality, hash and its additivity; codes around the limits of every size against every number of symbols"},
    "P29": {"parts": 4, "note": "all monomials of a universe of edge values x all insertions of up to 3 symbols at every position, and back; identification and removal of all subsets of the symbols; up to 300 symbols (d_packed); packed and d_packed, all exponent types"},
    "P28": {"parts": 4, "note": "all monomials of a universe of edge values x every symbol: derivative, antiderivative; x all subsets of the symbols: degrees, substitution and evaluation by formal variables (small exponents: by all assignments of seven rationals), against 128-bit and rational arithmetic"},
    "P30": {"parts": 4, "note": "all pairs of lists of up to two monomials of a universe of edge values, several kinds of ranges; ranges of over 5000 monomials with the decisive ones at every boundary of the work, under every split, order and join of the parallel loops (up to 3 leaves per loop, thorough: 4), against all the products"},
    "P31": {"parts": 2, "note": "all ordered pairs of the 18 integral types x all values (8- and 16-bit types) or the neighbours of all powers of two and ten; multi-precision integers and rationals in both directions; checked addition and subtraction of all pairs of 8-bit values and of edge values of wider types, against sign-magnitude arithmetic"},
    "P32": {"flags": ["-O2"], "note": "all 8- and 16-bit values, chunks of (thorough: all) the 32-bit ones, all numbers of up to 128 bits with one or two nonzero digits or next to a power of two, as text and as coefficients, against an odometer and multi-precision text"},
    "P36": {"flags": ["-O2"], "note": "all pairs of 78 (thorough: over 2000) seed words, one-bit and boundary ones included: 16 outputs; all histories of 4 (thorough: 5) requests of 17 kinds; runs of 20000 (200000) outputs; constant expressions, against a bit-by-bit reference"},
    "P33": {"src": [{"file": "h/P33.cpp", "flags": ["-O1", "-DPARTNAME=\"default\""]}, {"file": "h/P33.cpp", "flags": ["-O1", "-DFP_FAST_FMA=1", "-DFP_FAST_FMAF=1", "-DFP_FAST_FMAL=1", "-DPARTNAME=\"fma\""]}],
            "note": "all values of the 8- and 16-bit types, edge values of the wider integral, floating-point and multi-precision types (static and dynamic storage): zero test, negation, derivative, evaluation, substitution, trimming, hash, size; all triples for the fused multiply-add, all aliasings; all pairs for powers"},
    "P41": {"flags": ["-O0", "-fno-inline"], "libflags": ["-O2"], "ldflags": ["-rdynamic"],
            "note": "all messages of a set (every byte value, NULs, format characters, up to 64 KiB) x 17 kinds of string x 7 exception types x stack traces on and off; 14 forms of extra arguments and of types that take no text; stack traces of all depths up to 30 (thorough: 60) x all numbers of frames to skip; 31 errors of the library with the values they report"},
    "P37": {"rt": True, "flags": ["-O1"], "libsrc": ["atomic_flag_array.cpp"], "libs": ["-ldl"],
            "note": "all schedules within 3-4 (thorough: 5) deviations of all programs of two and three threads of up to 2 (3) sections over up to 3 flags, left normally or by an exception, with happens-before race detection; all array sizes to 130 in memory of any content; all ways to leave a scope"},
    "P03": {"rt": True, "parts": 3, "flags": ["-O1"],
            "note": "all schedules (splits of the loops, choice of task, switch of thread) within one or two deviations from the default, of the multi-threaded product of all pairs of a set of operands of 1 to 17 terms (thorough: 40) x sizes of coefficients (1 to hundreds of segments) x truncation limits, failures of coefficients at every point, with happens-before race detection"},
    "P07": {"rt": True, "flags": ["-O1"],
            "note": "all schedules within one or two (thorough: three) deviations of two and three threads that request powers (of equal, colliding and different bases, several types, clearing of the cache, warm cache), of parallel loops whose tasks request them, with serial and multi-threaded products, first use in the process; happens-before race detection, deadlocks"},
    "P38": {"rt": True, "flags": ["-O1"],
            "src": [{"file": "h/P38.cpp", "flags": ["-O1"]}, {"file": "h/P38_img.cpp", "flags": ["-O1", "-DIMG=1"], "image": 1}, {"file": "h/P38_img.cpp", "flags": ["-O1", "-DIMG=2", "-fvisibility=hidden", "-fvisibility-inlines-hidden"], "image": 2}],
            "note": "all schedules within one to three (thorough: four) deviations of two and three threads, in two images of the process (as two shared libraries), that create, copy, compare, truncate and destroy series and shared symbol sets (programs of up to 3 steps), the first use in the process included; first use with every allocation failing; ends of the process after all histories of up to 3 steps; happens-before race detection"},
    "P39": {"rt": True, "parts": 5, "flags": ["-O1"],
            "note": "all pairs (and triples) of 45 read-only operations by two (three) threads on one series (flat, segmented, with heap and heavy coefficients, long keys, nested, truncated power series), all schedules within one deviation, results compared to those of one thread; first operations of the process; happens-before race detection"},
    "P40": {"rt": True, "flags": ["-O1"],
            "note": "byte size, clearing, destruction, assignment and tables of total and partial degrees of series of 0 to 9 terms (and hundreds) in 1 to 512 segments (flat, long keys, nested, power series) under every split and order of the parallel loops into up to 3-4 leaves, against one pass over the terms; coefficients counted, memory accounted; all schedules within two (thorough: three) deviations with happens-before race detection"},
    "P42": {"parts": 3, "note": "all subsets of lists of up to 8 keys in 1 to 64 segments, inserted in two orders (packed, d_packed, nested, power series): terms visited, all pairs of positions compared, all keys looked up; all histories of up to 5 (thorough: 8) operations on two iterators and a constant one"},
    "P44": {"src": [{"file": "h/P44.cpp", "flags": ["-O1", "-DPART=%d" % k]} for k in range(6)] + [{"file": "h/P44_mem.cpp", "flags": ["-O1"]}], "note": "some 110 modifying and 50 non-modifying operations on all pairs of bounded universes (<= 2 terms; packed, d_packed, coefficients on the heap, claimed to be heavy for the multi-threaded product, rationals, power series), each of them once per allocation it makes and once more with all the later allocations failing too: errors, results, operands, repetition, lost memory"},
    "P34": {"parts": 8, "flags": ["-O0"], "note": "all 50 customisation points x all combinations of an override, a function next to the type and what the default needs, each absent, fine, of a wrong return type or for some value categories only, x all value categories of up to three arguments: which implementation runs, what it is passed, what is returned, exceptions, and the three ways to ask whether the call is possible; 19 operations of series with the same overrides"},
    "P35": {"parts": 7, "flags": ["-O0", "-w"], "libsrc": [], "note": "all types of a list of several hundred built from every kind of the language (cv, references, pointers, arrays, functions, classes) for the classification traits; all class types with up to two defects out of the full list for the operator, iterator and range detections, against the language; integral limits; floating-point casts"},
}
NOT_APPLICABLE = {}
for _c in CHECKS.values():
    _c.setdefault("assumptions", TRUST)
