"""The properties and the manifest entries. Run to rewrite properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))


SZ = (16, 256, 512, 1024)
def per(fmt): return [fmt % n for n in SZ]

PROD = ("For sizes 16, 256, 512 and 1024, each of the five product functions of the %s stores in its result array the product of its two "
        "argument polynomials modulo X^n + 1 and modulo 12289, for all arguments with coefficients in [0, 12288]. "
        "Every coefficient of the result is in [0, 12288]. "
        "The result does not depend on what the result array held before the call or on how the arrays are aligned.")
PRODQ = "all pairs of polynomials with coefficients in [0, 12288], all five algorithms, all four sizes, all prior contents and alignments of the arrays"
PRODW = ("The tests multiply random polynomials, monomials and a few known answers (n = 1024); the space has 12289^(2n) pairs, and errors of a "
         "missing reduction or of a single table entry show on special values and positions only.")
prop("C01", "Plain products are the product modulo X^n + 1, fully reduced", PROD % "plain C implementation", ["inputs", "configurations"], PRODQ, PRODW,
     ["src/ntt.c"] + per("src/ntt%d.c") + ["src/make_tables.c"],
     [("product1..product5: weighted transforms, elementwise product, inverse transform, scaling by 1/n", "src/ntt<n>.c"),
      ("operations modulo Q after every butterfly", "src/ntt.c")], ["result array of ntt<n>_product1..5"])
prop("C02", "Lazy-reduction products are the product modulo X^n + 1, fully reduced",
     PROD % "C implementation with lazy (Longa-Naehrig) reduction", ["inputs", "configurations"], PRODQ,
     PRODW + " Intermediate values are not reduced between rounds, so correctness also depends on the magnitudes reached.",
     ["src/ntt_red.c"] + per("src/ntt_red%d.c") + ["src/make_red_tables.c"],
     [("tables scaled by 1/3, rescaling by rescale8 or scaled_inv_psi_powers to cancel powers of 3", "src/ntt_red<n>.c, src/make_red_tables.c"),
      ("reduce_array_twice and correct bring the result to [0, Q-1]", "src/ntt_red<n>.c")], ["result array of ntt_red<n>_product1..5"])
prop("C03", "AVX2 products are the product modulo X^n + 1, fully reduced", PROD % "AVX2 implementation", ["inputs", "configurations"], PRODQ, PRODW,
     ["src/ntt_asm.S"] + per("src/ntt_red_asm%d.c"),
     [("vectorised transforms on the tables of the C implementation", "src/ntt_asm.S"), ("same pipeline as ntt_red<n>.c", "src/ntt_red_asm<n>.c")],
     ["result array of ntt_red<n>_product1_asm..5_asm"])
prop("C04", "Reference products are the product modulo X^n + 1, fully reduced", PROD % "reference (naive) implementation", ["inputs", "configurations"], PRODQ, PRODW,
     ["src/naive_ntt.c"] + per("src/naive_ntt%d.c"),
     [("operations with the C operator % and correction of negative remainders", "src/naive_ntt.c")], ["result array of naive_ntt<n>_product1..5"])

prop("C05", "Plain and reference transforms compute the NTT for every size and root",
     "For every power of two n from 2 to 2048, every n-th root psi of -1 modulo 12289 and every input array with elements in [0, 12288], each generic transform of the "
     "plain and of the reference implementation, given the table documented for it, replaces the array by the number-theoretic transform it is named for "
     "(Cooley-Tukey or Gentleman-Sande, standard or bit-reversed order of input and output, with or without multiplication by powers of psi), modulo 12289. "
     "The plain transforms return elements in [0, 12288].",
     ["inputs", "configurations"], "all n, psi and input vectors",
     "The tests use n = 16, 256, 512, 1024 with one psi each and some random vectors; the order of the butterflies and the position of each twiddle factor must be right for all n.",
     ["src/ntt.c", "src/naive_ntt.c", "src/ntt.h", "src/naive_ntt.h"],
     [("log2(n) rounds of butterflies over p[t + j]", "src/ntt.c, src/naive_ntt.c")], ["array after ntt_*, mulntt_*, nttmul_*"])
prop("C06", "Lazy-reduction transforms compute the NTT on their whole documented range",
     "For every power of two n from 2 to 2048, every n-th root psi of -1 and every input array with elements of absolute value at most 21499, each generic transform of the "
     "lazy-reduction C implementation, given the table documented for it (entries in [-6144, 6144]), replaces the array by integers congruent modulo 12289 to the "
     "number-theoretic transform it is named for.",
     ["inputs", "configurations"], "all n, psi and input vectors within the documented bounds",
     "The tests use four sizes, one psi each and random vectors in [0, 12288]; a magnitude that overflows 32 bits shows only on inputs aligned with the signs of the twiddle factors.",
     ["src/ntt_red.c", "src/ntt_red.h"], [("mul_red in every butterfly, additions without reduction", "src/ntt_red.c")], ["array after ntt_red_*, mulntt_red_*, nttmul_red_*"])
prop("C07", "AVX2 transforms compute the NTT on their whole documented range",
     "For every power of two n from 16 to 2048, every n-th root psi of -1 and every input array with elements of absolute value at most 21499, each AVX2 transform, given the table "
     "documented for it, replaces the array by integers congruent modulo 12289 to the number-theoretic transform it is named for.",
     ["inputs", "configurations"], "all n, psi and input vectors within the documented bounds",
     "The tests use four sizes with one psi each and random vectors; every lane of every unrolled loop must be right, whatever the values in the other lanes.",
     ["src/ntt_asm.S", "src/ntt_asm.h"], [("vectorised rounds, with special code for the rounds of distance less than 8", "src/ntt_asm.S")], ["array after *_asm"])
prop("C08", "Size-specialised transforms and their inverses agree",
     "For sizes 16, 256, 512 and 1024 and all four implementations, each size-specialised forward (inverse) transform computes the transform it is named for with the psi (the inverse of psi) that "
     "the library publishes for that size. An inverse transform applied to the result of a forward transform of matching order and weighting returns the original array times n modulo 12289.",
     ["inputs", "histories"], "all inputs in the documented range, all pairs of forward and inverse transforms",
     "The tests compare with recorded vectors and some random inputs; each of 192 wrappers has to pick the one right table out of a dozen that agree on many inputs.",
     per("src/ntt%d.h") + per("src/naive_ntt%d.h") + per("src/ntt_red%d.h") + per("src/ntt_red_asm%d.h"),
     [("choice of the table in each wrapper", "src/ntt<n>.h and the like")], ["array after the wrappers"])
prop("C09", "Reductions and normalisations of the C implementation are exact",
     "reduce_array maps every 32-bit integer x to 3*(x mod 4096) - floor(x/4096), and reduce_array_twice applies it twice, with results in the documented ranges [-524287, 536573] and [-130, 12413]. "
     "normalize and normalize_inv3 map every 32-bit integer to the residue in [0, 12288] of x and of x/3; correct maps every x in [-12289, 24577] to its residue in [0, 12288]; "
     "shift_array maps every x in [0, 12288] to the representative in [-6144, 6144]. Arrays of every length are processed from the first element to the last.",
     ["inputs"], "all 2^32 integers (or the whole documented domain), all array lengths",
     "The tests sample the domain; boundary values such as 12289, -1 or the ends of the 32-bit range are single points.",
     ["src/ntt_red.c", "src/ntt_red.h"], [("red, mul_red, correct, normalize", "src/ntt_red.c")], ["array after the call"])
prop("C10", "Elementwise products of the C implementations are exact",
     "mul_array, mul_array16 and scalar_mul_array (plain and reference) give the product modulo 12289 in [0, 12288] for all operands in [0, 12288]. "
     "mul_reduce_array, mul_reduce_array16 and scalar_mul_reduce_array give exactly red(x*y) = 3*(x*y mod 4096) - floor(x*y/4096) for every pair of operands whose product "
     "is in [-8796042698752, 8796093026303]. Arrays of every length are processed completely, the operands that are not the destination are unchanged, and the destination of a product of two arrays may be one of them.",
     ["inputs"], "all pairs of operands in the documented range, all array lengths",
     "The tests use random operands; overflow of an intermediate product or a wrong sign extension shows on large operands only.",
     ["src/ntt.c", "src/naive_ntt.c", "src/ntt_red.c"], [("64-bit product before the reduction", "src/ntt_red.c")], ["destination array"])
prop("C11", "AVX2 elementwise operations equal the C ones on every input",
     "For every array whose length is a positive multiple of 16, the AVX2 versions of reduce_array, reduce_array_twice, shift_array, correct, mul_reduce_array, mul_reduce_array16 and scalar_mul_reduce_array "
     "return, element by element, exactly the integers that the C versions are specified to return on the same domain. The test for AVX2 support answers what the processor reports.",
     ["inputs", "configurations"], "all 32-bit elements (products in the documented range), all lengths that are multiples of 16, all positions in the array, all alignments",
     "The tests compare on random arrays; each lane of each unrolled block is separate code.",
     ["src/ntt_asm.S", "src/ntt_asm.h"], [("vpsrad/vpmuldq/vpand/vpsub sequences", "src/ntt_asm.S")], ["destination array"])
prop("C12", "Bit-reversal shuffles are the bit-reversal permutation",
     "bitrev_shuffle moves every element i of an array of any power-of-two size to the index that reverses the bits of i, and changes no value. "
     "shuffle_with_table exchanges exactly the pairs of the given table, in order; the tables for sizes 16, 256, 512 and 1024 hold each exchanged pair of the bit-reversal permutation exactly once.",
     ["inputs", "configurations"], "all power-of-two sizes up to 65536 (tables: the four sizes; any table of pairs), all contents",
     "The tests run four sizes; an error for another size or a swap done twice is not visible.",
     ["src/ntt.c", "src/naive_ntt.c", "src/make_bitrev_table.c"] + per("src/bitrev%d_table.c"), [("reverse, bitrev_shuffle, shuffle_with_table", "src/ntt.c")], ["array after the call", "bitrev<n> tables"])
prop("C13", "Generated tables hold the documented powers for every size and root",
     "For every power of two n >= 2 and every n-th root psi of -1 modulo 12289, the sources written by the table generators compile and define each parameter and each table with the documented "
     "contents: powers of psi and of its inverse, scaled inverse powers, and the tables p[t + j] in standard and bit-reversed order; for lazy reduction the entries are those residues divided by 3 "
     "(or scaled as documented) in [-6144, 6144]. The bit-reversal generator writes the pairs of the permutation for every power-of-two size it accepts.",
     ["configurations"], "all n and psi (n up to 2048), every entry of every table",
     "The tests look at the tables of four fixed (n, psi).",
     ["src/make_tables.c", "src/make_red_tables.c", "src/make_bitrev_table.c", "src/ntt32_tables.c"], [("build_power_table, build_table, build_rev_table, scaling by the inverse of 3", "src/make_tables.c, src/make_red_tables.c")],
     ["generated .c and .h files, compiled"])
prop("C14", "Table generators refuse every invalid parameter",
     "A table generator called with a size that is not a power of two, is less than 2 or exceeds its documented maximum, with a psi outside of [2, 12288] or whose n-th power is not -1 modulo 12289, or with the wrong number of arguments, "
     "ends with a failure status and writes no table file. With valid arguments it ends with success.",
     ["inputs", "configurations"], "all argument lists",
     "The tests call the generators with four valid parameter pairs only.",
     ["src/make_tables.c", "src/make_red_tables.c", "src/make_bitrev_table.c"], [("checks in main", "src/make_tables.c, src/make_red_tables.c, src/make_bitrev_table.c")],
     ["exit status and files in the working directory"])
prop("C15", "No function touches memory outside of its arrays or writes to read-only operands",
     "For every size it accepts, no library function reads or writes memory before the first or after the last element of the arrays it is given, whatever their alignment. "
     "Operands that are not destinations (tables, factors) are never written, and product functions write only to their result and, as documented, to their two argument arrays.",
     ["inputs", "configurations"], "all functions of the four implementations, of the interval versions, sort and bounds, all sizes, all alignments",
     "The tests use arrays inside larger static objects, where an access past the end goes unnoticed.",
     ["src/ntt.c", "src/naive_ntt.c", "src/ntt_red.c", "src/ntt_asm.S", "src/ntt_red_interval.c"], [("loop bounds; 16-element unrolling of the AVX2 code", "src/ntt.c, src/ntt_asm.S")], ["arrays between guard pages, read-only operands"])
prop("C16", "Interval arithmetic is exact or sound and reports overflow",
     "Interval addition, subtraction, negation and the interval versions of red, red by a constant and red of a product return the smallest interval containing all results of the operation on elements of the operands; "
     "the interval versions of double reduction, normalisation, shift and correction return an interval containing all results (normalised, shifted and corrected ones within their documented range). "
     "When a bound does not fit 64 bits, or the lower bound given to the constructor exceeds the upper one, the program stops with an error instead of returning a wrong interval. Operands are unchanged.",
     ["inputs"], "all intervals of 64-bit integers (reduced products: |w*x| < 2^60)",
     "The repository has no test of intervals except through examples; containment must hold for all elements of all intervals.",
     ["src/intervals.c", "src/intervals.h"], [("closed formulas and calls to red_bounds", "src/intervals.c")], ["returned intervals, exit status"])
prop("C17", "Abstract transforms propagate exact intervals and warn of every overflow",
     "Each interval version of a transform computes, for each butterfly of each round of the concrete transform it is named for, the exact interval images of the sum, difference and reduced product, with fixed or interval-valued twiddle factors; "
     "the printed intervals of each round and the returned ones are these. A warning of overflow is printed for an element exactly when its interval exceeds 32 bits. "
     "The interval version of correct stops when an interval is not within the domain [-12289, 24577], and otherwise the elementwise interval versions contain all results.",
     ["inputs", "configurations"], "all sizes, tables and input intervals",
     "The paper's programs print intervals for n = 1024 that nobody compares with a reference.",
     ["src/ntt_red_interval.c", "src/ntt_red_interval.h"], [("one interval operation per concrete operation, show_intervals before each round", "src/ntt_red_interval.c")], ["standard output, array of intervals"])
prop("C18", "Bounds on the reduction are exact and attained",
     "The functions giving the maximum and minimum of red(x), of red(w*x) for a fixed factor w and of red(w*x) for an interval of factors return exactly the extremum over the given interval, with an element (and factor) of the interval that attains it. "
     "The bounds for one butterfly and for the rounds of whole transforms are the least bounds on absolute values for the given table.",
     ["inputs"], "all intervals and factors |w| <= 32768 with |w*x| < 2^42, all tables and sizes",
     "The test prints some values; an extremum in the interior of a long interval is missed by sampling.",
     ["src/red_bounds.c", "src/red_bounds.h"], [("search over one period of 4096/gcd", "src/red_bounds.c")], ["returned value and argmax/argmin"])
prop("C19", "sort sorts every array",
     "sort rearranges an array of any length of 64-bit unsigned integers into non-decreasing order, keeps each value as many times as it occurred, and terminates.",
     ["inputs"], "all arrays, including duplicates, sorted and reversed ones, and lengths 0 to thousands",
     "It is only used by the timing programs; no test looks at its result.",
     ["src/sort.c"], [("quicksort with insertion sort for small arrays", "src/sort.c")], ["array after the call"])
prop("C20", "No intermediate value overflows on documented inputs",
     "On arguments within their documented ranges, no arithmetic operation of the C implementations, including those on intermediate values inside the transforms and products, and no arithmetic operation of the interval and bound functions (on intervals of 64-bit integers, for reduced products with |w*x| < 2^60; results that do not fit are refused with an error), overflows its integer type or is otherwise undefined, and no internal assertion of the library fails.",
     ["inputs", "configurations"], "all functions, sizes and inputs within the documented ranges",
     "A signed overflow often gives the expected bits on the test machine; the largest intermediate values need specially constructed inputs.",
     ["src/ntt_red.c", "src/ntt.c", "src/naive_ntt.c", "src/intervals.c", "src/red_bounds.c", "src/ntt_red_interval.c"] + per("src/ntt_red%d.c"), [("bounds 21499 and 6144 on inputs and tables", "src/ntt_red.h")], ["build with traps on undefined arithmetic"])
prop("C21", "Results depend on the arguments only: any history, any thread schedule",
     "In every sequence of library calls on a set of buffers, each call changes only its destination buffers, and to values determined by the current contents of its arguments alone, whatever calls were made before. "
     "The same holds when several threads call the library at the same time on disjoint buffers, from the first calls of a program on. The interval and bound functions and sort also depend on their arguments only.",
     ["histories", "schedules"], "all sequences of calls (within documented argument ranges), all interleavings of threads with disjoint buffers",
     "Each test calls one function at a time on fresh data in a single thread.",
     ["src/ntt.c", "src/naive_ntt.c", "src/ntt_red.c", "src/ntt_asm.S", "src/intervals.c", "src/red_bounds.c", "src/sort.c"], [("no state except constant tables", "all modules")], ["all buffers after each call"],
     [("buffers", "contents of the caller's arrays", "caller")])
prop("C22", "The verifier's abstract domain is sound: safe means safe",
     "The interval domain of the LLVM-based verifier is sound: for every abstract state, the result of each transfer function (assignment, arithmetic, constraint, selection, renaming, projection) describes every concrete state the statement can lead to from a state described before, leaves the other variables as they were, and unreachable states stay unreachable. "
     "The transfer function of the reduction gives the exact interval of red(x) for a bounded x, of any magnitude, and no bounds otherwise. Join and meet are the least upper and greatest lower bounds, the inclusion test is exact, widening is above its arguments and stabilises. Hence no assertion is declared safe that can fail.",
     ["programs"], "all abstract states and statements", "Its expected results are a table for eight programs; no test runs the domain.",
     ["verifier/src/ntt_intervals.cpp", "verifier/src/ntt_intervals.hpp"], [("abstract domain with a special transfer function for the reduction", "verifier/src/ntt_intervals.cpp")], ["environments before and after each operation"])
prop("C23", "Published lists of primitive roots are complete and correct",
     "Each published list of primitive n-th roots of unity modulo 12289 holds exactly the integers in [1, 12288] whose multiplicative order modulo 12289 is n, each once.",
     ["configurations"], "all listed sizes, all 12288 candidates",
     "No test reads these files; they are the documented source of admissible psi for the generators.",
     ["data"], [("lists written once, used to choose psi", "data/primitive-roots-*.txt")], ["contents of the files"])
prop("C24", "AVX2 functions obey the calling convention",
     "Every function written in assembly can be called from any compiled code: on return the callee-saved registers, the stack pointer, the contents of the caller's stack frame, the direction flag and the floating-point control words are as they were before the call, "
     "and results do not depend on anything the convention leaves unspecified at the call (upper halves of registers holding 32-bit arguments, contents of scratch and vector registers, flags).",
     ["inputs", "configurations"], "all functions of src/ntt_asm.S, all sizes, all register contents at the call",
     "The tests are compiled once by one compiler, which happens to keep nothing in the clobbered registers and to zero the upper halves.",
     ["src/ntt_asm.S", "src/ntt_asm.h"], [("push/pop of rbx, r12-r15; 32-bit sizes used as 64-bit counters", "src/ntt_asm.S")], ["registers, stack and arrays after a call with random register contents"])
prop("C25", "Programs given to the verifier run safely and compute the library's transforms",
     "Each benchmark program of the verifier accepts every input array over [0, 12288] (and, where the table is an input, every table over [-6144, 6143]), runs one transform of size 1024 on it without failing an assertion, and the transform is the one of the shipped library: the result is congruent to the (inverse) transform of the input for the documented table. "
     "The assertions fail exactly on products outside of the range for which a reduction fits 32 bits. The generic functions, size-1024 functions and products of the benchmark copy of the library, and the tables its generator writes, satisfy the same contracts as the shipped ones.",
     ["inputs", "configurations"], "all inputs of the eight programs; all functions of the copy, all sizes and tables",
     "No test compiles these programs; they need tools that are not installed, and what the verifier proves of them matters only if they are the shipped code.",
     ["verifier/vstte20-benchmarks/ntt_red.c", "verifier/vstte20-benchmarks/ntt_red1024.c", "verifier/vstte20-benchmarks/make_red_tables.c", "verifier/vstte20-benchmarks/clam.h", "verifier/vstte20-benchmarks/harness_ntt_red1024.c"],
     [("ASSUME_FORALL over the input, clam_assert before each reduction", "verifier/vstte20-benchmarks")], ["assumptions and assertions evaluated concretely, arrays before and after"])
prop("C26", "Table generators never report success for incomplete files",
     "Whenever a table generator exits with status 0, both files it is to write are complete and nothing else is left in them, also when files of the same names existed before. "
     "When the system refuses to create, write (at any point) or close one of the files, or memory without which they cannot be written, the exit status is not 0; when nothing fails, it is 0.",
     ["crash points", "configurations"], "all generators and arguments, all points at which opening, writing or closing a file can fail",
     "No test runs the generators on a full disk or an unwritable place; a truncated table that make takes for complete gives wrong products or a failing build much later.",
     ["src/make_tables.c", "src/make_red_tables.c", "src/make_bitrev_table.c"], [("open_file, print, close", "src/make_tables.c: main")], ["exit status and contents of the files"])
prop("C27", "Intervals have one owner: no use after release, no leak, no silent lack of memory",
     "Each element of an array of intervals owns one block of memory. After every interval operation, elementwise interval function and interval version of a transform, for every size, each element of the result is a live interval that nothing else refers to, "
     "every interval the call replaced has been released exactly once, no released interval is read or written, nothing the call allocated remains besides the result, and intervals, tables and factors that are only operands are neither released nor changed. "
     "When memory is refused at any request, the program stops with an error: no call returns a missing or wrong interval.",
     ["inputs", "crash points"], "all interval operations, interval transforms and sizes; every request for memory may be refused",
     "The programs run each function once, never look at the heap and exit; a double release or a use after release often goes unnoticed with small blocks.",
     ["src/intervals.c", "src/ntt_red_interval.c"], [("new elements are stored, then the old ones are deleted", "src/ntt_red_interval.c"), ("check of malloc's result", "src/intervals.c: new_interval")], ["sequence of allocations and releases, addresses in the arrays, accesses to released blocks"])
prop("C28", "Known answers are right, and the known-answer programs notice every wrong product",
     "The known-answer data hold 100 triples of polynomials with coefficients in [0, 12288] in which the third is the product of the first two modulo X^1024 + 1 and 12289, and no operand occurs twice. "
     "Each known-answer program calls each of the five product functions of its implementation on every pair and ends with success if all coefficients of all results equal the known answers, and with a failure status if any coefficient of any of them differs, by whatever amount.",
     ["inputs"], "all 100 triples; all functions, triples, coefficients and wrong values",
     "These programs are what a user runs to accept a build or a port; as long as the library is right they succeed whether or not they look at anything.",
     ["src/data_poly1024.c", "src/kat_mul1024.c", "src/kat_mul1024_red.c", "src/kat_mul1024_red_asm.c"], [("loop over triples and coefficients, exit at the first difference", "src/kat_mul1024.c: test_mul_from_KAT_values")], ["contents of the triples; exit status with a stand-in for one product"])
prop("C29", "Speed programs report the true median and average of the measured calls",
     "Each speed program measures the five product functions of its implementation, in order and under their names, on three disjoint arrays of 1024 elements that hold valid polynomials before the first call. "
     "For every sequence of times that the calls take and every value of the cycle counter at the start, it prints for each function the element of rank N/2 of the sorted times (the median) and the integer part of their mean, "
     "where each of the N calls counts once with the number of cycles between the readings of the counter before and after it.",
     ["inputs", "histories"], "the four programs; all times of up to 2^40 cycles, all start values",
     "The times differ in every run, so no test can tell a right median or average from a wrong one.",
     ["src/speed_mul1024.c", "src/speed_mul1024_naive.c", "src/speed_mul1024_red.c", "src/speed_mul1024_red_asm.c", "src/sort.c"], [("differences in place, sort, element NTESTS/2", "src/speed_mul1024.c: print_results")], ["printed results on a cycle counter given by the harness"])
if __name__ == "__main__":
    import manifest
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    json.dump(manifest.manifest([p["id"] for p in P]), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
