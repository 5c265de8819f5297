#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of the property texts)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "mc"))
from spec import SPEC
P = []
def prop(id, title, statement, over, text, why, files, mech, technique="", note="", na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, observe=observe))

KER = ["src/binnedBLAS/dmdsum.ccog", "src/binnedBLAS/dmddot.ccog", "src/binnedBLAS/zmzdotu.ccog", "src/binnedBLAS/dmdssq.ccog", "src/binned/deposit.py", "src/common/blockSize.py"]
EXH = "Stateless exhaustive enumeration of the real library (built from the working tree), every execution compared with an independent exact reference; bounded, so nothing is claimed beyond the stated lengths, folds and value alphabets. Trusts the compiler, libm and the reference model in mc/cpp."

prop("C01", "Reductions do not depend on the order of their elements",
 "For every fold from 2 to the maximum, the sum, absolute sum, dot product and Euclidean norm (real and complex, single and double precision, binned or plain result) of a vector return bit-identical results for every permutation of the elements and for every positive stride. This includes data with cancellation, ties, denormals, near-overflow values, infinities and NaN (one NaN is as good as another).",
 ["inputs", "configurations"], "all permutations of the elements of a vector, all positive strides, all folds >= 2, all value patterns",
 "The tests compare a handful of fixed fills in sorted and reversed order; a lost bit shows up only for particular magnitudes standing at particular positions relative to the block and vector-register boundaries.",
 KER, [("pre-rounding by block maximum, deposit, periodic renormalisation", "src/binnedBLAS/dmdsum.ccog"), ("deposit code generator", "src/binned/deposit.py")],
 "exhaustive enumeration of element orders (all permutations of short vectors, all positions and rotations of long ones) on the real kernels", EXH)
prop("C02", "A binned number is determined by what was added, not by the operation history",
 "Starting from zero, any sequence of updates, deposits (within the documented endurance between renormalisations), renormalisations, additions of scalars, vectors and other binned numbers, assignments, negations and conversions leaves the binned number that exact integer arithmetic on its bins predicts for the values put in. The packed type and the manually specified type with any strides agree word for word.",
 ["histories"], "all sequences of operations on binned numbers (folds 2 to the maximum), respecting the documented deposit endurance",
 "Unit tests execute one fixed sequence per operation; wrong carries, shifts or bin indexes only show after particular combinations of updates, deposits and merges.",
 ["src/binned"], [("bin update shifts the accumulators", "src/binned/dmdupdate.c"), ("deposit", "src/binned/dmddeposit.c"), ("renormalisation moves overflow into the carries", "src/binned/dmrenorm.c"), ("merge", "src/binned/dmdmadd.c")],
 "breadth-first explicit-state exploration of operation histories on the real operations, each state compared with an exact model", EXH)
prop("C03", "Results stay within the advertised error bound of the exact result",
 "For finite data the result of a fold-k sum, dot product or conversion differs from the exact sum of the (once rounded) terms by no more than the documented bound function returns, and no intermediate overflow occurs: the result is finite whenever the exact result is in range. The bound itself is never smaller than the true error, for all folds from 2 up.",
 ["inputs"], "all finite vectors whose exact result is representable, all folds >= 2",
 "The tests check the bound on fixed fills with comfortable exponents; the extremes (near overflow, denormal bins, high folds, massive cancellation) are not reached.",
 ["src/binned/dbbound.c", "src/binned/sbbound.c", "src/binned/ddmconv.c", "src/binned/ssmconv.c"], [("error bound", "src/binned/dbbound.c"), ("conversion adds from the largest word down with scaling against overflow", "src/binned/ddmconv.c")],
 "exhaustive enumeration over boundary alphabets with an exact big-integer oracle", EXH)
prop("C04", "Every build configuration returns the same bits",
 "For the same inputs, every supported build configuration (AVX, SSE2 or no vector instructions; any tuning parameters in the documented range, values outside which are brought back into it, or the defaults; generated or pre-generated kernels; optimisation level; compiler) returns bit-identical results from every routine. NaN inputs to the maximum-magnitude routines are excepted: their result is unspecified.",
 ["configurations", "inputs"], "all build configurations times all inputs",
 "The test suite runs against one configuration and never compares configurations with each other.",
 KER + ["src/params.json", "src/default_args.json", "src/tuned_args.json", "src/common/blockSize.py", "scripts/getter.ccog", "src/gen/vectorizations.py"],
 [("vectorisation back ends", "src/gen/vectorizations.py"), ("tuned blocking", "src/tuned_args.json")],
 "differential enumeration: one exhaustively enumerated workload run on every configuration, all outputs compared", EXH)
prop("C05", "NaN and infinity propagate as in real arithmetic, wherever they stand",
 "If the inputs contain a NaN, or infinities of both signs (or a product of zero and infinity), the sum, dot product, absolute sum or norm is NaN; with infinities of one sign only it is that infinity. This holds for every position in the vector, every mix with finite values including the largest ones, every component of complex data, and after further additions and merges.",
 ["inputs", "histories"], "all placements of special values in vectors, all merge histories of poisoned numbers",
 "The tests place one special value at one or two positions; block boundaries, vector tails and merges of poisoned numbers are not covered.",
 KER + ["src/binned/dmddeposit.c", "src/binned/dmdmadd.c", "src/binned/dmdupdate.c"], [("special value path of the kernels", "src/binnedBLAS/dmdsum.ccog"), ("special value merge", "src/binned/dmdmadd.c")],
 "exhaustive enumeration of special-value placements on the real kernels against an extended-real model", EXH)
prop("C06", "Routines touch only the elements their arguments describe",
 "Every routine reads only the N (or M x N) elements given by its lengths, strides and leading dimensions, never past the last element nor before the first nor in the gaps, and never writes to its inputs. It writes only the words of its result; gaps between strided words and padding rows stay as they were.",
 ["inputs", "configurations"], "all lengths, strides, shapes, placements at page boundaries and vector back ends",
 "An over-read or an unmasked store is invisible unless it crosses a page or hits a value that matters; the tests allocate comfortable buffers.",
 KER + ["src/common/blockSize.py", "src/binnedBLAS/dbdgemv.ccog", "src/binnedBLAS/dbdgemm.ccog"], [("partial vector loads for tails", "src/gen/vectorizations.py"), ("transposition and packing buffers", "src/binnedBLAS/dbdgemm.ccog")],
 "exhaustive enumeration of lengths, strides and shapes with guard pages, read-only inputs, canaries and address sanitizer", EXH)
prop("C07", "Matrix-vector products are reproducible dot products entry by entry",
 "For every storage order, transposition, shape, leading dimension, stride, alpha and beta, each entry of a matrix-vector product equals, bit for bit, what the exact model predicts for the dot product of that row (or column) with the scaled vector accumulated onto the entry. The result is independent of the layout in which the matrix is stored and of any internal blocking.",
 ["inputs", "configurations"], "all orders, transpositions, shapes, leading dimensions, strides, scalars and blockings",
 "Tests use a few shapes with constant fills, so a wrong element, length or block boundary often yields the same value.",
 ["src/binnedBLAS/dbdgemv.ccog", "src/binnedBLAS/sbsgemv.ccog", "src/binnedBLAS/zbzgemv.ccog", "src/binnedBLAS/cbcgemv.ccog", "src/reproBLAS/rdgemv.c", "src/reproBLAS/rzgemv.c"], [("blocked dot products", "src/binnedBLAS/dbdgemv.ccog"), ("complex variants", "src/binnedBLAS/zbzgemv.ccog")],
 "exhaustive enumeration of shapes, layouts and scalars on the real routines against the exact model", EXH)
prop("C08", "Matrix-matrix products are reproducible dot products entry by entry",
 "For every storage order, pair of transpositions, shape, leading dimension, alpha and beta, each entry of a matrix-matrix product equals, bit for bit, what the exact model predicts for the dot product of its row and column accumulated onto the entry. The result is independent of the layout of the matrices and of any internal blocking.",
 ["inputs", "configurations"], "all orders, transpositions, shapes, leading dimensions, scalars and blockings",
 "Tests use a few shapes with constant fills, so a wrong element, length or block boundary often yields the same value.",
 ["src/binnedBLAS/dbdgemm.ccog", "src/binnedBLAS/sbsgemm.ccog", "src/binnedBLAS/zbzgemm.ccog", "src/binnedBLAS/cbcgemm.ccog", "src/reproBLAS/rdgemm.c", "src/reproBLAS/rzgemm.c"], [("blocked, transposed packing", "src/binnedBLAS/dbdgemm.ccog"), ("complex variants", "src/binnedBLAS/zbzgemm.ccog")],
 "exhaustive enumeration of shapes, layouts and scalars on the real routines against the exact model", EXH)
prop("C10", "Long reductions lose nothing at block, endurance and carry boundaries",
 "A sum, absolute sum, dot product or sum of squares of any length up to the documented capacity equals what exact integer arithmetic on the bins predicts: no element is skipped, repeated or clobbered at a block or vector boundary, and no accumulator word overflows between renormalisations. The same holds across repeated calls on the same accumulator.",
 ["inputs", "histories"], "all lengths, all value patterns that maximise growth of the accumulators, repeated calls",
 "The tests use a few lengths; an endurance overflow needs thousands of maximal values of one sign in one bin, exactly at a block boundary.",
 KER, [("block length limited by the deposit endurance", "src/binnedBLAS/dmdsum.ccog"), ("renormalisation", "src/binned/dmrenorm.c")],
 "exhaustive enumeration of lengths around all boundaries with adversarial patterns against the exact model", EXH)
prop("C14", "Scaled sums of squares do not depend on how the data are cut or merged",
 "The scale and sum of a scaled sum of squares, and the Euclidean norm, depend only on the multiset of values: cutting the data into any sequence of calls, or merging partial results with different scales in any order, gives the same words as one call. Data spanning the whole exponent range neither overflow nor lose the small squares that the fold can represent.",
 ["inputs", "histories"], "all multisets of magnitudes, all cuts into calls, all merge orders, folds whose last bin stays above the least square",
 "Tests run a single call on fixed fills; rescaling of a non-empty accumulator and merging of different scales are hardly exercised.",
 ["src/binnedBLAS/dmdssq.ccog", "src/binned/dmdmaddsq.c", "src/binned/dmdrescale.c", "src/binned/dscale.c"], [("rescaling shifts whole bins", "src/binned/dmdrescale.c"), ("merge of scaled sums", "src/binned/dmdmaddsq.c")],
 "exhaustive enumeration of magnitude sequences, cuts and merge orders on the real routines against the exact model",
 EXH + " Two recorded findings: with folds reaching the least bin, squares far below the largest round twice.")
prop("C16", "Index, scale, unit and bin queries describe one fixed partition of the range",
 "For every input the index query returns the bin the value falls in, the scale query a power of two of the bin width not above the value, the unit-in-the-first-place query the leading power of two, and the error-free bin table is monotone and consistent with them. Queries on a binned number (index, zero index, denormal) agree with the values added.",
 ["inputs"], "all single precision inputs, and every exponent and boundary mantissa in double precision",
 "The tests sample some exponents; off-by-one errors at the ends of the exponent range or in denormals need specific values.",
 ["src/binned/dindex.c", "src/binned/sindex.c", "src/binned/dscale.c", "src/binned/sscale.c", "src/binned/ufp.c", "src/binned/ufpf.c", "src/binned/dmbins.c", "src/binned/dmindex.c", "src/binned/dmdenorm.c"], [("exponent field arithmetic", "src/binned/dindex.c"), ("reference bins", "src/binned/dmbins.c")],
 "exhaustive enumeration of inputs (all floats in the thorough tier) against independent definitions", EXH)
exec(open(os.path.join(ROOT, "mc/props2.py")).read()) if os.path.exists(os.path.join(ROOT, "mc/props2.py")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]:
            a["observe_at"] = p["observe"]
        fh.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="python3 mc/build.py avx sse sisd asan", checks=[], not_applicable=[])
for p in P:
    if p["na"] or p["id"] not in SPEC:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"] or "no check yet"))
    else:
        i = p["id"]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i, technique="model checking: " + p["technique"], level=SPEC[i]["level"], level_note=p["note"]))
m["notes"] = "No hooks in /repo: the checks build private copies of the working tree into .cache and link harnesses against the public headers."
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    import re
    n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
    assert n <= 3, (p["id"], n)
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
