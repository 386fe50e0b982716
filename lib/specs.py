"""What each property's check runs: harness (h), mode (m), build variant (v), cases on the quick (q) and thorough (t)
tier, and the monitor counters that must have fired for the run to count."""

import install

GEN = ("inputs come from 14 seeded generators (exponent windows, one exponent, top of bin, bin boundaries, cancelling pairs, subnormals, full range, "
       "waves, ramps, spikes, slicing ties, near overflow, zeros, small integers) in both precisions, fold 2..MAXFOLD; ")

L1NAMES = [p + k for p in ("d:", "s:") for k in ("sum", "asum", "dot", "ssq", "zsum", "zasum", "zdotu", "zdotc", "zssq")]

MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_btl="self,vader,tcp", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_rmaps_base_oversubscribe="1")

SPECS = {
    "C01": dict(
        runs=[dict(h="h_l1", m="perm", q=400000, t=6000000, ql=14), dict(h="h_core", m="trees", q=60000, t=1500000, ql=8)],
        need=["orders-compared", "d:sum", "s:sum", "d:zsum", "s:zsum", "d:asum", "s:asum", "d:zasum", "s:zasum", "d:dot", "s:dot", "d:zdotu", "s:zdotu", "d:zdotc", "s:zdotc", "d:ssq", "s:ssq", "d:zssq", "s:zssq", "special-results"],
        rule=GEN + "each input vector is summed by the plain routine, then re-summed under 2-5 reorderings and strides; non-trivial: more than one element, counted once per distinct vector"),
    "C02": dict(
        runs=[dict(h="h_core", v="core", m="trees", q=150000, t=4000000, ql=12), dict(h="h_core", v="core", m="hist", q=60000, t=1500000, ql=12), dict(h="h_l1", m="split", q=250000, t=5000000, ql=10)],
        need=["orders-compared", "splits-compared", "merges", "states-read", "doublings", "vector-merges", "complex-vector-merges"],
        rule=GEN + "one multiset is split into 1..9 parts, accumulated by three routes and merged in random trees; one vector is accumulated in chunks by vector and scalar routines into 1..5 accumulators and merged; histories mix every scalar operation over 2-5 accumulators shadowed by an exact model; non-trivial: more than one summand or operation, distinct by content"),
    "C03": dict(
        runs=[dict(h="h_l1", m="exact", q=400000, t=6000000, ql=16), dict(h="h_core", m="hist", q=60000, t=1500000, ql=8),
              dict(h="h_huge", m="len", q=40, t=4000, ql=9)],
        need=["states-read", "plain-vs-scalar", "beyond-endurance", "conversions", "near-int-max", "d:sum", "s:sum", "d:zsum", "s:zsum", "d:asum", "s:asum", "d:zasum", "s:zasum", "d:dot", "s:dot", "d:zdotu", "s:zdotu", "d:zdotc", "s:zdotc"],
        rule=GEN + "the accumulator a routine leaves behind is read back bin by bin and compared with an exact integer model of the sliced sum; non-trivial: at least one summand, distinct by content"),
    "C04": dict(
        runs=[dict(h="h_l1", m="bound", q=400000, t=6000000, ql=20)],
        need=["results-compared", "inexact-results", "overflowing", "worst-case", "beyond-half-the-bound"],
        rule=GEN + "the plain result is compared with the exact rational sum of the (rounded) summands and with both the documented and the reported bound; non-trivial: more than one element"),
    "C05": dict(
        runs=[dict(h="h_core", v="core", m="endur", q=20000, t=400000, ql=15), dict(h="h_core", v="core", m="hist", q=60000, t=1500000, ql=10), dict(h="h_l1", m="dense", q=20000, t=400000, ql=10)],
        need=["full-endurance-batches", "deposits", "doublings", "capacity-reached", "states-read", "beyond-endurance"] + ["dense:" + q + k for q in ("d:", "s:") for k in ("sum", "asum", "dot", "zsum", "zasum", "zdotu", "zdotc")],
        rule=GEN + "histories deposit up to the full endurance of same-sign top-of-bin values between renormalisations and double accumulators up to the documented capacity; every step the fields are read and must be in normal form and exact; vector routines get more same-sign top-of-bin elements than fit between renormalisations; distinct histories with more than one operation"),
    "C06": dict(
        runs=[dict(h="h_l1", m="special", q=300000, t=4000000, ql=12), dict(h="h_core", m="special", q=40000, t=1000000, ql=8), dict(h="h_l1", m="exact", q=100000, t=1000000, ql=6)],
        need=["special-states", "states-read", "conversions"],
        rule=GEN + "Inf, -Inf and NaN are planted anywhere in data, products or previous contents; the accumulator must hold exactly the IEEE special the multiset calls for, else stay finite and exact; non-trivial: a special value actually resulted"),
    "C10": dict(
        runs=[dict(h="h_l23", m="gemv", q=150000, t=3000000, ql=14),
              dict(h="h_huge", m="gemv", q=10000, t=200000, ql=4),
              dict(h="h_huge", m="longgemv", q=4, t=80, ql=120, tl=900)],
        need=["near-int-max", "outputs-checked", "beyond-one-block", "large-shapes", "special-outputs", "empty-products"] + [p + z + "gemv/" + e for p in ("d:", "s:") for z in ("", "z") for e in ("binned", "fold", "default")],
        rule=GEN + "random order and transpose letters, shapes crossing every block size, leading dimensions with NaN-filled gaps, strides, alpha and beta from {0, 1, -1, random}; every output element compared; non-trivial: a non-empty product with nonzero alpha, distinct by content"),
    "C11": dict(
        runs=[dict(h="h_l23", m="gemm", q=100000, t=3000000, ql=16),
              dict(h="h_huge", m="gemm", q=10000, t=200000, ql=4),
              dict(h="h_huge", m="longgemm", q=0, t=16, tl=900, thorough_only=True)],
        need=["outputs-checked", "beyond-one-block", "large-shapes", "special-outputs", "empty-products"] + [p + z + "gemm/" + e for p in ("d:", "s:") for z in ("", "z") for e in ("binned", "fold", "default")],
        rule=GEN + "random order and transpose letters, shapes crossing every block size, leading dimensions with NaN-filled gaps, alpha and beta from {0, 1, -1, random}; every output element compared; non-trivial: a non-empty product with nonzero alpha, distinct by content"),
    "C12": dict(
        runs=[dict(h="h_ssq", m="ssq", q=150000, t=4000000, ql=14), dict(h="h_ssq", m="rescale", q=200000, t=4000000, ql=8)],
        need=["states-read", "d:ssq", "d:zssq", "s:ssq", "s:zssq", "scaled-merges", "merged-into-smaller-scale", "merged-into-larger-scale", "norms-compared", "special-states", "shifting-rescales", "bins-fell-off"],
        rule=GEN + "vectors are fed in chunks of widely different magnitude to 1..5 scaled accumulators, merged in random order; the scale, every bin and the norm are compared with an exact model; non-trivial: more than one element, distinct by content"),
    "C07": dict(
        runs=[dict(h="h_l1", m="layout", q=200000, t=5000000, ql=14), dict(h="h_place", v="core", m="place", q=200000, t=5000000, ql=8),
              dict(h="h_huge", m="vec", q=20000, t=400000, ql=5)],
        need=["placements", "states-compared"] + L1NAMES + [p + z + k for p in ("d:", "s:") for z in ("", "z") for k in ("set", "merge", "add", "update", "deposit", "renorm", "from", "to", "negate", "setzero", "rescale", "addv")] + ["d:addsq", "s:addsq", "d:zrset", "s:zrset"],
        rule=GEN + "each vector is placed 3-6 times with random strides, offsets from a 64-byte boundary and accumulator field strides, gaps filled with NaN or sentinels; non-trivial: more than one element, distinct by content"),
    "C13": dict(
        runs=[dict(h="h_idx", m="amax", q=600000, t=10000000, ql=12),
              dict(h="h_huge", m="maxlen", q=8, t=200, ql=10)],
        need=["infinite", "near-int-max"] + [p + z + k for p in ("d:", "s:") for z in ("", "z") for k in ("amax", "amaxm")],
        rule=GEN + "vectors with the maximum at block tails, strides with Inf-filled gaps and all alignments; compared with a plain maximum over rounded products; vectors whose products hold a NaN are left out; non-trivial: more than one element, distinct by content"),
    "C14": dict(
        runs=[dict(h="h_idx", m="floats", q=0, t=0, ql=60), dict(h="h_idx", m="helpers", q=60000, t=1000000, ql=10)],
        need=["floats-visited", "values", "denormal-answers", "normal-answers", "allocations"],
        rule="all 2^32 floats for the single precision index and unit, plus random, power-of-two-adjacent and raw-bit values in both precisions and every fold for sizes, bins, scales, accumulator indices and denormal tests; distinct counts only the batches of 200 random values, evaluations also every float visited"),
    "C16": dict(
        runs=[dict(h="h_l1", m="effects", q=200000, t=5000000, ql=14), dict(h="h_guard", m="l23", q=40000, t=800000, ql=7), dict(h="h_guard", m="scalar", q=60000, t=1500000, ql=4),
              dict(h="h_l23", m="gemv", q=30000, t=500000, ql=4), dict(h="h_l23", m="gemm", q=30000, t=500000, ql=5)],
        need=["control-words-compared", "calls-observed", "foreign-modes", "repeats-compared", "aliased-operands"] + L1NAMES,
        rule=GEN + "each call is bracketed by reads of the SSE and x87 control words, under the default and foreign modes, inputs compared before and after, and repeated after unrelated calls; non-trivial: more than one element, distinct by content"),
    "C18": dict(
        runs=[dict(h="h_l1", m="algebra", q=250000, t=5000000, ql=14), dict(h="h_core", m="hist", q=40000, t=1000000, ql=6)],
        need=["parts-compared", "absolute-compared", "ones-compared", "signs-compared", "negations-compared", "negations", "swaps-compared", "self-conjugate"] + L1NAMES,
        rule=GEN + "each routine is compared bit by bit with another that must agree with it (complex with its real parts, asum with sum of absolutes, sum with dot by ones, dot with swapped operands); non-trivial: more than one element, distinct by content"),
    "C19": dict(
        runs=[dict(h="h_l1", m="default", q=250000, t=5000000, ql=12), dict(h="h_l23", m="gemv", q=30000, t=500000, ql=5), dict(h="h_l23", m="gemm", q=30000, t=500000, ql=5)] +
             [dict(h=h, m=m, v="folds" + f, x="folds=%s,%s" % tuple(f), q=q, t=20 * q, ql=4) for f in ("52", "24") for h, m, q in (("h_l1", "default", 30000), ("h_l23", "gemv", 8000), ("h_l23", "gemm", 8000))],
        need=["defaults-compared"] + L1NAMES + [p + z + k + "/default" for p in ("d:", "s:") for z in ("", "z") for k in ("gemv", "gemm")],
        rule=GEN + "every routine without a fold argument is compared bit by bit with its counterpart at fold 3; non-trivial: more than one element, distinct by content"),
    "C08": dict(
        runs=[dict(h="h_guard", m=m, q=q, t=q * 20, ql=7) for m, q in (("l1", 120000), ("l23", 40000), ("scalar", 120000))] +
             [dict(h=h, v="asan", m=m, q=q, t=q * 20, ql=6) for h, m, q in (("h_guard", "l1", 60000), ("h_guard", "l23", 12000), ("h_guard", "scalar", 100000), ("h_l1", "layout", 30000), ("h_l1", "special", 30000),
              ("h_core", "hist", 20000), ("h_core", "special", 20000), ("h_place", "place", 40000), ("h_l23", "gemv", 6000), ("h_l23", "gemm", 6000), ("h_ssq", "ssq", 20000), ("h_ssq", "rescale", 60000), ("h_idx", "amax", 120000), ("h_idx", "helpers", 15000), ("h_huge", "vec", 3000), ("h_huge", "gemv", 2000), ("h_huge", "gemm", 2000))] +
             [dict(h=h, v="trap", m=m, q=q, t=q * 20, ql=5) for h, m, q in (("h_huge", "maxlen", 8), ("h_l1", "layout", 60000), ("h_core", "hist", 30000), ("h_idx", "helpers", 20000), ("h_idx", "amax", 150000), ("h_l23", "gemv", 20000), ("h_l23", "gemm", 15000), ("h_ssq", "ssq", 30000))],
        need=["near-int-max", "guarded-calls", "guarded-blocks", "heap-blocks", "flush-with-end", "flush-with-start"],
        rule=GEN + "each call runs on ordinary memory, then with operands flush against inaccessible pages, inputs on read-only pages and the library's heap blocks counted, guarded and filled with another pattern, and results compared; further runs under AddressSanitizer and UndefinedBehaviorSanitizer; distinct by content"),
    "C09": dict(
        diff=dict(h="h_diff", variants=["o1", "clang", "sse", "sisd", "defargs", "macargs", "pseudo", "o0", "random1", "random4", "random2", "random3", "random5"], optional=["pseudo"], thorough_only=["random2", "random3", "random5"],
                  modes=[dict(m="l1", q=200000, t=2000000), dict(m="l23", q=30000, t=250000), dict(m="core", q=150000, t=1500000)]),
        need=["compared-with-" + v for v in ("o1", "clang", "sse", "sisd", "defargs", "macargs", "pseudo", "o0", "random1", "random4")] + [p + k for p in ("d:", "s:") for k in ("scalar", "zscalar", "gemv", "zgemv", "gemm", "zgemm")] + L1NAMES,
        rule=GEN + "the same calls run on the library built as shipped, without optimisation, without AVX, without any vector instructions, with each committed set of tuning parameters, with parameters picked at random from the tuner's ranges (with and without AVX) and from the committed pre-generated kernels; a digest of every result and accumulator field compared; distinct by content"),
    "C15": dict(
        runs=[dict(h="h_thr", m="conc", q=12000, t=300000, ql=8), dict(h="h_thr", m="first", q=16000, t=200000, ql=10), dict(h="h_thr", v="tsan", m="conc", q=1200, t=40000, ql=10), dict(h="h_thr", v="tsan", m="first", q=1200, t=20000, ql=10)],
        need=["results-compared", "first-results-compared", "fresh-processes", "switches"] + [p + z + k for p in ("d:", "s:") for z in ("", "z") for k in ("plain", "binned", "scalar", "helpers", "gemm", "gemv", "amax")] + ["d:squares", "s:squares"],
        rule="2 to 8 threads run 1-12 random calls each on shared inputs, in long-lived and in fresh processes (first use), in the shipped build and under ThreadSanitizer; distinct counts inputs together with the observed order of call starts and ends"),
    "C17": dict(
        runs=[dict(h="h_mpi", v="mpi", m="local", q=60000, t=2000000, ql=10, env=MPIENV)] +
             [dict(h="h_mpi", v="mpi", m="world", q=q, t=q * 30, ql=8, shards=1, env=MPIENV, optional=True, wrap=("mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(n))) for n, q in ((2, 3000), (3, 3000), (5, 1500), (7, 900), (8, 700))],
        need=["local-reductions", "folds-used"] + [p + k for p in ("d:", "s:") for k in ("real", "complex", "squares")],
        rule=GEN + "arrays of accumulators at every fold are reduced locally with the library's MPI operator and compared with direct merges, and reduced across 2-8 processes by seven collectives and compared with the accumulator one process computes from all the data; distinct by content"),
    "C20": dict(
        runs=[dict(h="h_print", v="core", m="print", q=60000, t=1500000, ql=8), dict(h="h_print", v="asan", m="print", q=20000, t=400000, ql=8)],
        need=["bins-read", "empty-bins", "special-bins"] + [p + z + k for p in ("d:", "s:") for z in ("", "z") for k in ("bprint", "mprint")],
        rule=GEN + "accumulators at every fold and field stride, empty and special ones too, are printed to a captured stream which is parsed and compared with the fields; distinct by field contents"),
    "C21": dict(
        custom=install.check,
        need=["header-orders", "linked-together", "functions-linked", "declared:binned.h", "declared:binnedBLAS.h", "declared:reproBLAS.h", "example-rows", "installed-again", "defaults-compared", "plain-vs-scalar"],
        rule="the tree is installed into an empty directory; every ordered subset of its headers is compiled, every declared function linked and every example run against that directory alone; non-trivial: one per function linked, example row and distinct vector"),
    "C22": dict(
        runs=[dict(h="h_whole", m="sums", q=400000, t=20000000, ql=12), dict(h="h_whole", m="scalar", q=200000, t=10000000, ql=8), dict(h="h_whole", m="norm", q=200000, t=5000000, ql=6), dict(h="h_whole", m="matrix", q=100000, t=4000000, ql=12)],
        need=["results-compared", "full-width-sums", "cancelling-sums", "beyond-endurance", "several-bins", "round-trips", "merges", "deposits", "negations", "large-shapes"] + [n for n in L1NAMES] +
             [p + z + k + x for p in ("d:", "s:") for z in ("", "z") for k in ("gemv", "gemm") for x in ("/fold", "/default", "/binned")],
        rule="data are random integers times one power of two from the whole range of exponents, sized so that the exact result fits; vectors to 5000 elements, histories of up to 24 operations on 1-4 accumulators, matrices, folds 2..MAXFOLD; distinct by content"),
}
