"""The properties and how each is decided; `python3 lib/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUST = " Trusts: the generators' reach, the harness' exact-integer model (lib-independent), gcc and the FPU. Sampling: no claim about inputs not generated."


def P(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)), technique, note


FIELDS = [("primary and carry vectors", "fold bins of a sum: mantissa in a biased window, plus count of overflowed quarter-bins", "include/binned.h")]
DEF = [
P("C01", "Reductions give the same bits in any order",
  "A reproducible sum, sum of absolute values, dot product (plain, unconjugated or conjugated) or Euclidean norm of a vector returns bitwise the same result for every reordering of the (paired) elements, in both precisions, real and complex, at every fold. This includes vectors with infinities, NaNs, subnormals, zeros and values near overflow (all NaNs count as the same result).",
  ["inputs", "schedules"], "all vectors, all permutations of them, all folds 2..max, both precisions, real and complex",
  "The tests shuffle a few analytic data sets (waves, ramps) at a handful of sizes and folds; the claim is over all data and all orders.",
  ["src/reproBLAS", "src/binnedBLAS", "src/binned/dmdupdate.c", "src/binned/dmrenorm.c", "src/binned/deposit.py"],
  [("bins aligned to absolute exponents, independent of data order", "src/binned/dmdupdate.c"), ("exact deposits and renormalisation within endurance", "src/binned/deposit.py")], ["return values of reproBLAS_r*"],
  "runtime monitor: metamorphic order oracle over random permutations", "Bitwise comparison of the result under 2-5 random orders per generated vector.", FIELDS),
P("C02", "Sums do not depend on how they are split and merged",
  "Splitting summands into any parts, accumulating the parts in separate binned accumulators by any mix of single adds, batched deposits or conversions, and merging the parts in any tree gives one accumulator state and one converted result. Merging never changes the accumulator that is merged in.",
  ["histories", "inputs"], "all partitions, accumulation routes and merge trees of all multisets of summands",
  "Tests merge two halves of a few vectors; merge trees, routes and accumulators of different magnitude, sign and fold combine without bound.",
  ["src/binned/dmdmadd.c", "src/binned/smsmadd.c", "src/binned/zmzmadd.c", "src/binned/cmcmadd.c", "src/binned/dbdbaddv.c", "src/binned/dmdmset.c"],
  [("merge aligns bins and adds primaries and carries exactly", "src/binned/dmdmadd.c")], ["fields of the accumulators", "converted value"],
  "runtime monitor: state equality over random merge trees plus exact shadow model", "Accumulator fields compared bit by bit across routes; histories shadowed by an exact model.", FIELDS),
P("C03", "An accumulator holds exactly the binned sum of its summands",
  "After any vector reduction routine or sequence of scalar operations, whatever the accumulator held before, the stride of its fields and the length of the vector, each bin holds exactly the integer sum of the slices of all summands that fall in that bin, with the first bin that of the largest summand. A plain routine returns exactly what adding its summands (sums, absolute values, rounded products) one at a time and converting would return.",
  ["inputs", "histories"], "all vectors and lengths (including beyond one endurance block), strides, folds, previous contents",
  "Tests compare a final value on analytic data, so a lost, doubled or misplaced slice that stays below the last bit is invisible.",
  ["src/binnedBLAS", "src/binned", "src/binned/deposit.py", "src/common/blockSize.py"],
  [("slicing by add/subtract against a biased primary with a forced odd bit", "src/binned/dmddeposit.c"), ("blocks no longer than the endurance, renormalised between", "src/binned/deposit.py")], ["fields of the accumulators"],
  "runtime monitor: exact integer model of every bin", "Every bin of every accumulator read back and compared with an exact integer model.", FIELDS),
P("C04", "Results are within the documented error bound",
  "The result of a reproducible sum or dot product differs from the exact sum of its (rounded) summands by no more than the documented bound for its fold, count, largest summand and result, and by no more than the bound the library itself reports for them. The reported bound is not inflated beyond the documented formula.",
  ["inputs"], "all finite vectors whose products are finite, all folds",
  "Tests check analytic sums at a few folds; cancellation, overflow to carries and subnormals make the worst cases.",
  ["src/binned/dbbound.c", "src/binned/sbbound.c", "src/binned/ddmconv.c", "src/binned/ssmconv.c", "include/binned.h"],
  [("conversion sums bins from largest to smallest with scaled carries", "src/binned/ddmconv.c"), ("bound formula", "src/binned/dbbound.c")], ["return values", "binned_*bound"],
  "runtime monitor: exact rational sum as oracle for the error", "Exact multi-word sum of the summands against both bounds."),
P("C05", "Accumulators stay in normal form within endurance and capacity",
  "With at most the documented endurance of deposits between renormalisations, and total counts up to the capacity, no field of an accumulator ever leaves its window, every operation that promises a renormalised accumulator leaves one, and nothing deposited is lost. Renormalising a renormalised accumulator changes nothing.",
  ["histories"], "all histories of operations within the documented endurance and capacity",
  "Reaching endurance needs adversarial same-sign top-of-bin values and precise batch lengths; capacity needs doublings no loop could sum.",
  ["src/binned/dmrenorm.c", "src/binned/smrenorm.c", "include/binned.h", "src/binned/dmdupdate.c", "src/binnedBLAS/smsasum.ccog", "src/binnedBLAS/dmdsum.ccog"],
  [("renormalisation moves quarter-bins from primary to carry", "src/binned/dmrenorm.c")], ["fields after every operation"],
  "runtime monitor: normal-form and exactness assertions on stressed histories", "Fields read after every operation of histories that run at full endurance and double to capacity.", FIELDS),
P("C06", "Infinities and NaNs propagate alike in every order, never from finite data",
  "If summands or products contain a NaN, or infinities of both signs, the accumulator and result are NaN; with infinities of one sign only they are that infinity, however late or early it arrives, in any routine and merge order. Finite summands within capacity never produce a NaN or an infinity in the accumulator, and the result is infinite only if the sum overflows.",
  ["inputs", "histories"], "all placements of special values in data, in products and in previous contents",
  "Tests place specials at a few positions in all-zero or constant data; interactions with blocks, bins at the top of the range and merges are untested.",
  ["src/binned/dmddeposit.c", "src/binned/dmdmadd.c", "src/binnedBLAS", "src/binned/ddmconv.c"],
  [("non-finite summands added to the first primary directly", "src/binned/dmddeposit.c")], ["fields", "return values"],
  "runtime monitor: IEEE special-value oracle", "The special value each multiset must give, over planted Inf/NaN in data, products and prior contents."),
P("C07", "Results do not depend on strides, alignment or field layout",
  "A reduction gives the same bits wherever its operands lie: at any alignment, with any positive increments (even across more than 2^31 elements), and with the accumulator packed or with separate primary and carry vectors at any increments. Only the addressed elements are read and only the addressed fields are written.",
  ["inputs"], "all placements of all vectors and accumulators",
  "Kernels have separate unit-stride, strided, unrolled and remainder paths for each vector width and fold; tests use a couple of strides on a few sizes.",
  ["src/binnedBLAS", "src/gen/vectorizations.py", "src/gen/generate.py"],
  [("unit-stride and strided kernel variants with unrolled bodies and remainders", "src/gen/generate.py")], ["return values", "accumulator fields", "memory between elements"],
  "runtime monitor: metamorphic placement oracle with sentinel-filled gaps", "Bitwise comparison over 3-6 random placements of each vector; NaN or sentinels between elements.", FIELDS),
P("C08", "No call touches memory outside its operands or leaves any behind",
  "For any valid arguments no routine reads or writes outside its operands and own temporaries, writes to its inputs, uses memory it has not initialised, releases memory it does not own, leaves a temporary allocated, or executes undefined behaviour in arithmetic.",
  ["inputs"], "all shapes, strides, folds, letters and contents, including empty operands",
  "A read one element past the end or of uninitialised scratch usually leaves the tests' results unchanged.",
  ["src/binnedBLAS", "src/reproBLAS", "src/binned"],
  [("blocked copies of matrix panels into heap scratch", "src/binnedBLAS/dbdgemm.ccog"), ("remainder loads of the vector kernels", "src/gen/vectorizations.py")], ["guard pages", "heap requests", "sanitizer reports"],
  "sanitizers (address, undefined) and guard-page/heap-accounting monitors", "Guard pages around operands and heap blocks of the shipped build, heap accounting, scratch filled with different patterns, ASan and UBSan builds."),
P("C09", "Every build configuration computes the same bits",
  "The same calls give bitwise identical results and accumulators whether the library is built by gcc or clang, optimised or not, with AVX, with SSE2 only or without vector instructions, with any tuning parameters in the tuner's ranges (the committed sets among them), or from the committed pre-generated kernels. Every one of these configurations builds and links.",
  ["configurations", "inputs"], "all committed build configurations on this architecture, all inputs",
  "Tests run one configuration; reproducibility across machines is the purpose of the library.",
  ["src/gen", "src/binnedBLAS", "src/tuned_args.json", "src/default_args.json", "src/common/common.h"],
  [("kernels generated per instruction set and block size", "src/gen/generate.py")], ["return values and fields of each build"],
  "runtime monitor: differential execution of twelve builds", "A digest per call compared across twelve builds of the tree.", FIELDS),
P("C10", "Matrix-vector products are element-wise reproducible dot products",
  "For every order and transpose letter, shape, leading dimension, increment, alpha and beta, each element of gemv is what beta times the old element plus the products of alpha-scaled x with the (transposed or conjugated) matrix entries gives when deposited one by one in a fresh accumulator and converted (for the binned form: what adding those products to the old accumulator gives). Nothing between the elements is read or written.",
  ["inputs"], "all shapes (across every internal block size), strides, letters, scalars and contents, both precisions, real and complex",
  "Blocking, packing and unrolling create dozens of paths; tests check a few square sizes with norms that hide errors in low bins.",
  ["src/binnedBLAS/dbdgemv.ccog", "src/binnedBLAS/zbzgemv.ccog", "src/binnedBLAS/sbsgemv.ccog", "src/binnedBLAS/cbcgemv.ccog", "src/reproBLAS"],
  [("blocks of rows and columns, transposed through scratch", "src/binnedBLAS/dbdgemv.ccog")], ["output vector"],
  "runtime monitor: exact per-element oracle", "Every output element against the exact list of products it stands for.", FIELDS),
P("C11", "Matrix-matrix products are element-wise reproducible dot products",
  "For every order and pair of transpose letters, shape, leading dimensions, alpha and beta, each element of gemm is what beta times the old element plus the products of alpha-scaled A entries with B entries (transposed or conjugated as asked) gives when deposited one by one in a fresh accumulator and converted (for the binned form: added to the old accumulator). Nothing between the elements is read or written.",
  ["inputs"], "all shapes (across every internal block size), leading dimensions, letters, scalars and contents, both precisions, real and complex",
  "Blocking, packing and transposition create dozens of paths per precision; tests check a few square sizes.",
  ["src/binnedBLAS/dbdgemm.ccog", "src/binnedBLAS/zbzgemm.ccog", "src/binnedBLAS/sbsgemm.ccog", "src/binnedBLAS/cbcgemm.ccog", "src/reproBLAS"],
  [("blocks of both operands packed and transposed in scratch", "src/binnedBLAS/dbdgemm.ccog")], ["output matrix"],
  "runtime monitor: exact per-element oracle", "Every output element against the exact list of products it stands for.", FIELDS),
P("C12", "Scaled sums of squares and norms are exact, mergeable and do not overflow",
  "A sum of squares fed in any chunks to any number of scaled accumulators, merged in any order, ends with the scale of the largest element and bins holding exactly the sum of the squares of the scaled elements (up to rounding of squares that underflow or fall below the last bin). Norms from one or several accumulators agree bitwise, are within the binned error of the exact norm and neither overflow nor underflow unless the norm itself does. Rescaling moves every bin by exactly the squared ratio.",
  ["inputs", "histories"], "all vectors, chunkings and merge orders, all folds",
  "The scale changes with the data's magnitude; rescaling of partly filled accumulators between chunks is order dependent unless exact.",
  ["src/binnedBLAS/dmdssq.ccog", "src/binned/dmdrescale.c", "src/binned/dmdmaddsq.c", "src/binned/dscale.c", "src/reproBLAS/rdnrm2.c"],
  [("scale is a power of two on the bin grid so that rescaling shifts bins", "src/binned/dmdrescale.c")], ["scale", "fields", "norms"],
  "runtime monitor: exact model of scaled accumulators over histories", "Scale, every bin and the norm against an exact model after every step.", FIELDS),
P("C13", "Maximum routines return exactly the largest absolute value or product",
  "The amax routines return the largest absolute value of a vector (per part when complex) and the amaxm routines that of the rounded element-wise products (per part, over all the products that enter it), for every length up to the largest int and every stride, with infinities included; empty vectors give zero. Vectors whose values or products hold a NaN are outside the claim.",
  ["inputs"], "all vectors, lengths, strides and positions of the maximum",
  "A lane lost in one remainder or unroll path shows only when the maximum sits there; a too small maximum silently corrupts sums.",
  ["src/binnedBLAS/damax.ccog", "src/binnedBLAS/damaxm.ccog", "src/binnedBLAS/amax.py", "src/binnedBLAS/amaxm.py"],
  [("vectorised maximum with masked absolute values", "src/binnedBLAS/amax.py")], ["return values"],
  "runtime monitor: plain loop as oracle", "Compared with a plain maximum for maxima planted at every block position."),
P("C14", "Index, unit, scale and size helpers match the bin layout for every value",
  "For every number the bin index is that of the bin holding its leading bit, units in the first place and denormal tests match its encoding, bins are those of the layout, reported sizes and field counts are those the routines use, and scales are grid powers of two within the documented window of their argument and monotone.",
  ["inputs"], "all single precision numbers; all double precision numbers by sampling; all folds and indices",
  "Boundaries (powers of two at bin edges, subnormals, the largest finite number) are few among 2^32 values.",
  ["src/binned/dindex.c", "src/binned/sindex.c", "src/binned/dmbins.c", "src/binned/smbins.c", "src/binned/ufp.c", "src/binned/ufpf.c", "src/binned/dscale.c", "src/binned/sscale.c", "src/binned/dmdenorm.c", "src/binned/dbsize.c", "src/binned/dmindex.c"],
  [("index from the exponent field", "src/binned/dindex.c")], ["return values"],
  "runtime monitor: exhaustive sweep of floats plus boundary sampling against an arithmetic oracle", "All 2^32 floats for index and unit; boundary-biased samples for the rest."),
P("C15", "Concurrent calls give the results of serial ones, from the first use on",
  "Any threads may call the library at once on private outputs and shared read-only inputs, including as its very first use in the process, and each call returns bitwise what it returns alone, without data races.",
  ["schedules"], "all interleavings of calls from several threads, including first use",
  "The tests are single-threaded; lazily filled tables and shared scratch would race only when first used together.",
  ["src/binned/dmbins.c", "src/binned/smbins.c", "src/binnedBLAS"],
  [("tables of reference bins filled in before main", "src/binned/dmbins.c")], ["results of concurrent calls", "ThreadSanitizer reports"],
  "runtime monitor: serial-equivalence oracle under thread stress, plus ThreadSanitizer", "Results of 2-8 racing threads compared with serial ones, in long-lived and fresh processes; race detector."),
P("C16", "Calls have no side effects on inputs, floating-point control or later calls",
  "No routine changes its input operands or the floating-point control state (rounding, exception masks, flush-to-zero, precision), and a call returns the same bits when repeated, whatever other calls came between and wherever inputs alias each other.",
  ["histories", "inputs"], "all calls in all orders, under default and foreign control settings restored afterwards",
  "Tests do not look at control words or repeat calls after unrelated ones.",
  ["src/binnedBLAS", "src/binned", "include/binned.h"],
  [("no global state but constant tables", "src/binned/dmbins.c")], ["control words", "inputs", "return values"],
  "runtime monitor: before/after state comparison around every call", "MXCSR and x87 control words, inputs and repeated results compared around every call.", FIELDS),
P("C17", "MPI reductions equal direct merging for any process count and algorithm",
  "The MPI datatypes describe exactly one accumulator at every fold up to the largest, and reducing with the MPI operators, locally or by any collective over any number of processes and distribution of the data, gives the accumulator that direct merging or one process with all the data would give (the same scale too, for squares). Inputs are not changed.",
  ["schedules", "inputs"], "all folds, element counts, process counts, distributions of data and collective algorithms",
  "The repository has no MPI tests.",
  ["src/binnedMPI", "include/binnedMPI.h"],
  [("one operator function per fold merging element-wise", "src/binnedMPI/DBDBADD.ccog")], ["reduced accumulators"],
  "runtime monitor: reductions over 1-8 real MPI processes against a serial oracle", "Local reductions at every fold against direct merges; seven collectives over 2-8 processes against the accumulator of all the data.", FIELDS),
P("C18", "Routines agree with each other where mathematics says they must",
  "Complex routines agree bitwise with the real routines applied to their parts; the absolute sum equals the sum of absolute values; a sum equals the dot product with ones; negating the data or the accumulator negates the result (up to the rounding of its conversion); a dot product is unchanged by swapping its operands (conjugated: conjugate of it), and the conjugated product of a vector with itself is its sum of squares.",
  ["inputs"], "all vectors, both precisions, all folds",
  "Each routine is tested alone on analytic data; agreement is between independent kernels on arbitrary data.",
  ["src/binnedBLAS", "src/reproBLAS"],
  [("separate generated kernels per routine with shared slicing", "src/binnedBLAS/depositSum.py")], ["return values"],
  "runtime monitor: cross-routine metamorphic oracle", "Bitwise comparison of pairs of routines that must agree.", FIELDS),
P("C19", "Plain entry points are the routines at the default fold",
  "Every routine without a fold argument returns bitwise what its counterpart with an explicit fold returns at the default fold, for every argument. The default fold is 3, or what config.h sets for each precision when the library is built.",
  ["inputs"], "all arguments of all default-fold routines",
  "The wrappers forward up to fourteen arguments each; a wrong constant or swapped argument can leave a test's tolerance intact.",
  ["src/reproBLAS", "include/reproBLAS.h"],
  [("wrappers forwarding to the fold routines", "src/reproBLAS/dsum.c")], ["return values"],
  "runtime monitor: differential oracle between entry points", "Bitwise comparison of each default entry point with its explicit fold-3 form."),
P("C20", "Printing shows every bin of an accumulator and changes nothing",
  "The print routines write one line per bin giving its exponent, contents, carry and value (both parts when complex) for packed and separate accumulators at any increments, read only the accumulator's fields, change nothing, and are defined for empty and special accumulators as well.",
  ["inputs"], "all accumulators, folds and increments",
  "Printing has no test.",
  ["src/binned/dmprint.c", "src/binned/zmprint.c", "src/binned/smprint.c", "src/binned/cmprint.c", "src/binned/dbprint.c", "src/binned/zbprint.c"],
  [("loop over bins", "src/binned/dmprint.c")], ["standard output"],
  "runtime monitor: captured output parsed against the fields, plus sanitizers", "Captured output parsed and compared with the fields; also under ASan and UBSan.", FIELDS),
P("C21", "An installed package is complete and usable in any order of headers and libraries",
  "After an installation into any directory, every header compiles as strict C99 alone and with the others in any order and more than once, in any number of files of one program; every function a header declares is in the library named after it, which links alone or with the others in any order; the examples build, and each of their reproducible methods gives one sum, within its bound, in any order of the data and on any number of processes; a second installation changes nothing.",
  ["configurations", "programs"], "all subsets and orders of headers and libraries, all declared functions, all process counts of the MPI example",
  "The tests link everything from the source tree in one order, use about half of the functions and never install.",
  ["include/binned.h", "include/binnedBLAS.h", "include/reproBLAS.h", "include/binnedMPI.h", "examples/sum_sine.c", "examples/MPI_sum_sine.c"],
  [("headers include what they need, with guards; libraries carry the objects they need", "include/reproBLAS.h")], ["installed files", "compiler and linker diagnostics", "output of the examples"],
  "runtime monitor: real installation exercised by generated client programs", "Every ordered subset of headers compiled, every declared function linked and resolved, examples and the exact-model harness run against the installed files only."),
P("C22", "Sums that fit the format come out exactly",
  "When all data are integer multiples of one power of two, no summand spans more bits than fold - 1 bins are wide, and the absolute values of the summands add up to no more than the mantissa of the format holds (with neither overflow nor bits below the least bin), then every sum, absolute sum, dot product, matrix product and accumulator, however built and converted, gives exactly the mathematical result, and a norm whose exact value is such a number is exactly it. At the default fold, converting a number without bits below the least bin to a binned type and back returns that number.",
  ["inputs", "histories"], "all such vectors, matrices, coefficients and histories of scalar operations; both precisions, real and complex, all folds",
  "Tests accept errors within the bound and take the reference from the library's own accumulators; one unit in the last place of an integer sum passes.",
  ["src/binned/ddmconv.c", "src/binned/ssmconv.c", "src/binned/dmdconv.c", "src/binned", "src/binnedBLAS", "src/reproBLAS"],
  [("conversion adds carries and bins from the most significant down, so that no partial sum is rounded", "src/binned/ddmconv.c")], ["return values", "converted accumulators"],
  "runtime monitor: integer arithmetic as independent oracle", "Every result compared with 128-bit integer arithmetic; no library routine takes part in the oracle.", FIELDS),
]


def main():
    from specs import SPECS
    have = [(p, t, n) for p, t, n in DEF if p["id"] in SPECS]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p, _, _ in have:
            f.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="python3 check.py --setup", checks=[dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=t, level="exploration", level_note=n + TRUST) for p, t, n in have], not_applicable=[],
               notes="Every check copies /repo's working tree to a scratch directory, builds it there with the project's makefiles, and removes it. No hooks in /repo are needed: the library's fields are public.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
