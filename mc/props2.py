prop("C09", "MPI reductions give the same bits for every reduction tree",
 "Reducing binned numbers over MPI with the library's operators gives, for every number of ranks, every order and tree in which the operator is applied and every segmentation of the buffers, the words of the same data reduced in one process, for every fold. The datatypes describe exactly the bytes of a number, getters return one committed handle per fold however often and in whatever order they are asked, and an MPI error reaches the user as an abort with that error code.",
 ["schedules", "histories", "faults"], "all reduction trees, segmentations, folds, orders of requests and failing MPI calls",
 "There is no MPI test in the suite, and MPI implementations choose trees and segments by message size and rank count, so a test run sees one of them.",
 ["src/binnedMPI"], [("reduction operators generated per fold", "src/binnedMPI/DBDBADD.ccog"), ("scaled sums carry their scale", "src/binnedMPI/DBDBADDSQ.ccog"), ("datatypes created on first use", "src/binnedMPI/DOUBLE_BINNED.c")],
 "exhaustive exploration of all reduction trees and segmentations (up to five ranks), all ordered pairs of first requests and all single MPI faults, on the real operators with MPI replaced by a recorder",
 EXH + " The MPI library itself is replaced by a stub that records and drives the callbacks.")
prop("C11", "Calls on disjoint data may run concurrently, even the first calls of a process",
 "Any two calls of the library on disjoint data may be interleaved in any way, including during the very first calls of a process, and each still returns exactly the bits it returns alone. No call observes a half-initialised table or the temporaries of another one.",
 ["schedules"], "all preemption points of one call by another (each instruction), first calls included",
 "The suite is single threaded; a race on a lazily initialised table shows only if the second call starts inside a window of a few instructions of the first call of the process.",
 ["src/binned/dmbins.c", "src/binned/smbins.c", "src/binned/dscale.c", "src/binned/sscale.c", "src/binnedBLAS/dmdsum.ccog", "src/binnedBLAS/dbdgemv.ccog"], [("tables initialised on first use", "src/binned/dmbins.c")],
 "stateless exploration of schedules of the real machine code: single-stepped, preempted at every instruction (one preemption) and at every change of shared memory (two preemptions)",
 EXH + " Sequentially consistent interleavings on one processor; effects of weaker memory ordering are not explored.")
prop("C12", "Calls leave nothing behind: no hidden state, no changed environment",
 "The result of a call depends only on its arguments: not on earlier calls, on their order or on their being the first of the process. Every call returns with the floating point control state (rounding, flushing, exception masks, x87 control word and stack) as it was on entry, whatever that was, and clears no exception flag that was set.",
 ["histories", "configurations"], "all ordered pairs of calls in a fresh process, long histories, and all floating point control states on entry",
 "Tests call each routine in one fixed order in one environment; caches, static buffers and control word changes show only in particular sequences.",
 ["src/binned", "src/binnedBLAS", "src/reproBLAS"], [("lazily initialised tables", "src/binned/dmbins.c"), ("vector register code with no epilogue state", "src/gen/vectorizations.py")],
 "exhaustive exploration of call histories (all ordered pairs from a fresh process, all-pairs chains) and of the control states on entry", EXH)
prop("C13", "Calls release all they allocate and never depend on uninitialised memory",
 "Every call, over all routines, shapes and folds, frees every block it allocates exactly once and stays inside each block. Its result is the same whatever the heap and the stack contained before.",
 ["inputs", "configurations"], "all routines, shapes, folds and contents of fresh memory",
 "A leak or a read of uninitialised memory does not change the result of a short test run on fresh zeroed pages.",
 ["src/binned/dmdmaddsq.c", "src/binnedBLAS/dbdgemv.ccog", "src/binnedBLAS/dbdgemm.ccog", "src/binnedBLAS/zbzgemm.ccog", "src/reproBLAS/rdgemv.c", "src/reproBLAS/rdgemm.c", "src/reproBLAS/rdsum.c"], [("temporaries of the matrix products", "src/binnedBLAS/dbdgemm.ccog"), ("temporary number of the plain routines", "src/reproBLAS/rdsum.c")],
 "exhaustive enumeration of calls under a recording allocator with guarded blocks, for every fill pattern of heap and stack", EXH)
prop("C15", "Complex numbers are pairs of real ones, and all layouts hold the same words",
 "Every complex routine acts on the real and on the imaginary component exactly as the corresponding real routine does on that component alone, whatever the other component holds (infinities, NaN and zero included); complex dot products, absolute sums and norms equal the real ones of their component vectors. Every layout (packed, or manually specified with any strides) ends up with the same words and converts to the same value.",
 ["histories", "inputs"], "all histories of operations on complex numbers, all component values, all strides",
 "Tests use equal or simply related components, so an exchanged, dropped or leaked component often yields the same value.",
 ["src/binned", "src/binnedBLAS/zmzsum.ccog", "src/binnedBLAS/zmzdotc.ccog", "src/binnedBLAS/zmzdotu.ccog", "src/binnedBLAS/dmzssq.ccog", "src/binnedBLAS/dmzasum.ccog"], [("complex operations call the real ones with doubled strides", "src/binned/zmzmadd.c"), ("conjugation and pairwise swaps", "src/binnedBLAS/depositDotC.py")],
 "breadth-first exploration of operation histories of complex numbers in lockstep with their real components, in three layouts, plus exhaustive tuples for the reductions", EXH)
prop("C17", "The layers of the interface agree with one another",
 "A plain routine returns the bits obtained by zeroing (or converting the scaled previous value into) a binned number of the given fold, applying the binned routine and converting back; a routine without a fold returns what the routine with the configured default fold returns. Sizes, element counts, allocations and printed representations describe the same number.",
 ["inputs", "configurations"], "all routines, folds, lengths, strides, shapes and scalars",
 "Tests check the layers against separate tolerance or fixed references, so a wrapper with a swapped argument or another fold goes unnoticed on benign data.",
 ["src/reproBLAS", "src/binned/dbsize.c", "src/binned/zbsize.c", "src/binned/dballoc.c", "src/binned/dmprint.c", "src/binned/zmprint.c"], [("plain routine", "src/reproBLAS/rddot.c"), ("default fold", "src/reproBLAS/ddot.c"), ("scaling of the previous value", "src/reproBLAS/rzgemm.c")],
 "differential enumeration of one layer of the real library against the composition of the layer below, over all short inputs, folds, shapes and scalars", EXH)
prop("C18", "A reduction cut into parts merges to the reduction in one piece",
 "Cutting a sum, absolute sum or dot product into any parts, reducing each into its own binned number and merging these in any order and tree gives the words of the reduction in one piece, for every fold. The same holds for continuing on an accumulator, for empty parts, and for vectors of binned numbers added element by element with any strides.",
 ["histories", "inputs"], "all partitions of the data, all merge trees, all split points",
 "Tests merge one fixed split; a carry or a bin shift lost in a merge needs particular parts with different leading bins.",
 ["src/binned/dmdmadd.c", "src/binned/smsmadd.c", "src/binned/zmzmadd.c", "src/binned/dbdbaddv.c", "src/binned/dmdupdate.c", "src/binnedBLAS/dmdsum.ccog"], [("merge shifts the coarser operand", "src/binned/dmdmadd.c"), ("element by element merge", "src/binned/dbdbaddv.c")],
 "exhaustive enumeration of all set partitions and merge trees of short vectors and all split points of longer ones on the real routines", EXH)
prop("C19", "Conversion, assignment, zeroing and negation of binned numbers lose nothing",
 "Converting a finite value to a binned number of fold 3 or more and back returns the value, down to half a unit of the least bin (with fold 2: within half a unit of its second bin). Negation negates the value exactly and twice restores it, a number plus its negation is zero, assignment copies and zeroing clears every word, and adding zero changes nothing.",
 ["inputs", "histories"], "all single precision values, all exponents with boundary mantissas in double precision, all pairs of boundary values over all bins",
 "Tests convert a few values; the compressed largest bin, the denormal bins and bin boundaries need particular exponents and mantissas.",
 ["src/binned/dmdconv.c", "src/binned/ddmconv.c", "src/binned/ssmconv.c", "src/binned/smsconv.c", "src/binned/dmnegate.c", "src/binned/smnegate.c", "src/binned/dmdmset.c", "src/binned/dmsetzero.c"], [("conversion", "src/binned/ddmconv.c"), ("negation about the bin centre", "src/binned/dmnegate.c")],
 "exhaustive enumeration of values (all floats in the thorough tier) and of pairs of boundary values through operation histories", EXH)
prop("C20", "Maximum-magnitude routines return the largest magnitude present",
 "The largest magnitude, and largest magnitude of elementwise products (each rounded once), returned for any data without NaN is exactly that of a plain scan, component by component for complex data. It holds for every position of the extremum, every length, stride, infinity, denormal and every build configuration.",
 ["inputs", "configurations"], "all positions, lengths, strides and value tuples",
 "Tests place the maximum in few positions; a vector tail or a lane that is not folded into the maximum makes the pre-rounding bound of the kernels too small.",
 ["src/binnedBLAS/damax.ccog", "src/binnedBLAS/samax.ccog", "src/binnedBLAS/zamax_sub.ccog", "src/binnedBLAS/damaxm.ccog", "src/binnedBLAS/zamaxm_sub.ccog", "src/binnedBLAS/amax.py", "src/binnedBLAS/amaxm.py"], [("lane-wise maximum and horizontal fold", "src/gen/vectorizations.py"), ("products of pairs", "src/binnedBLAS/amaxm.py")],
 "exhaustive enumeration of positions, lengths, strides and value tuples on the real kernels against a plain scan", EXH)
