SPEC = {
    "C01": dict(src=["c01.cpp"], level="model_checking", variants=["avx", "sse", "sisd"]),
    "C02": dict(src=["c02.cpp"], level="model_checking", variants=["avx"]),
    "C03": dict(src=["c03.cpp"], level="model_checking", variants=["avx"]),
    "C04": dict(src=["c04.cpp"], level="model_checking", compare=True, variants=["avx","sse","sisd","maxargs","midargs","minargs","stored","clang","O1","storedsse","storedsisd"], thorough_variants=["defargs","macargs","midavx","minsisd","midsisd"]),
    "C05": dict(src=["c05.cpp"], level="model_checking", variants=["avx"]),
    "C06": dict(src=["c06.cpp"], level="model_checking", variants=["avx","sse","sisd","asan"], thorough_variants=["minargs","midavx","ubsan"],
        runs=[dict(), dict(variants=["asan"], opts=["what=gemv"], src=["c07.cpp"]), dict(variants=["asan"], opts=["what=gemm"], src=["c07.cpp"])],
        vextra=dict(asan=dict(ldflags0=["-fsanitize=address"], env=dict(ASAN_OPTIONS="handle_segv=0:handle_abort=0:detect_leaks=0:allocator_may_return_null=1"), on_abnormal=r"ERROR: AddressSanitizer[^\n]*"),
                    ubsan=dict(ldflags0=["-fsanitize=undefined"], on_abnormal=r"[^\n]*runtime error:[^\n]*"))),
    "C07": dict(src=["c07.cpp"], level="model_checking", opts=["what=gemv"], variants=["avx","minargs","midargs"]),
    "C08": dict(src=["c07.cpp"], level="model_checking", opts=["what=gemm"], variants=["avx","minargs","midargs"]),
    "C09": dict(src=["c09.cpp"], level="model_checking", variants=["avx"], thorough_variants=["stored"], libs=["libbinnedmpi.a", "libreproblas.a"]),
    "C10": dict(src=["c10.cpp"], level="model_checking", variants=["avx","maxargs"]),
    "C11": dict(src=["c11.cpp"], level="model_checking", variants=["avx"], thorough_variants=["sisd", "O1", "clang"]),
    "C12": dict(src=["c12.cpp"], level="model_checking", variants=["avx", "sse", "sisd"], thorough_variants=["stored"]),
    "C13": dict(src=["c13.cpp", "../cpp/mem.cpp"], level="model_checking", variants=["avx"], thorough_variants=["sse", "sisd", "minargs", "stored"]),
    "C14": dict(src=["c14.cpp"], level="model_checking", variants=["avx","sisd"]),
    "C17": dict(src=["c17.cpp"], level="model_checking", variants=["avx","folds"], thorough_variants=["sse","sisd"]),
    "C18": dict(src=["c18.cpp"], level="model_checking", variants=["avx"], thorough_variants=["sisd"]),
    "C15": dict(src=["c15.cpp"], level="model_checking", variants=["avx","sisd"], thorough_variants=["sse","minargs"]),
    "C19": dict(src=["c19.cpp"], level="model_checking", variants=["avx"], thorough_variants=["O1","clang"]),
    "C20": dict(src=["c20.cpp"], level="model_checking", variants=["avx","sse","sisd","stored"], thorough_variants=["defargs","minargs","midavx","storedsisd","storedsse"]),
    "C16": dict(src=["c16.cpp"], level="model_checking", variants=["avx"]),
}

BOUNDS = dict(
    C01="all permutations of <= 4 elements (5 thorough) per bin alphabet and fold; every swap/rotation/reversal/stride of every length <= 100 (200) and of the block and endurance lengths",
    C02="histories of <= 4 operations (3 above fold 7; thorough 5/4) from 4 start states, alphabet of bin-boundary operands",
    C03="tuples of <= 3 boundary values, every bin; vectors of <= 4 with cancellation; every fold",
    C04="every length <= 100 (200), lengths around E/4..2E (9E), 9 data regimes, special values; 11 configurations (16)",
    C05="vectors of <= 4 over 7 values; 1-2 specials at every position of lengths <= 66 (100); histories of <= 4 (5) operations, complex <= 2 (3); 1-2 specials at every position of small matrix products",
    C06="every length <= one unrolled block plus tails, strides 1..3, every matrix shape up to the stated size, both ends of every buffer",
    C07="every shape <= 11 x 11 (20 x 20), 6 scalars, pads 0..2, strides 1..2, all block boundary shapes",
    C08="every shape <= 5 x 5 x 5, 6 scalars, pads, all block boundary shapes",
    C09="<= 5 ranks, every tree and direction, 3 segmentations, every fold; every pair of first requests; every failing MPI call",
    C10="every length up to several blocks, all lengths around E/2, E, 2E; 3 calls in a row; start states incl. nearly full accumulators",
    C11="2 calls; a preemption at every instruction of the first, 2 preemptions at changes of shared memory",
    C12="192 control states x all calls; all ordered pairs of calls",
    C13="all calls x 4 memory patterns",
    C14="<= 4 magnitudes over scale boundaries, all cuts, all merge orders",
    C15="histories of <= 3 operations; tuples of 2 (3); every length <= 40 (80)",
    C16="every exponent x boundary mantissas (thorough: every float)",
    C17="all reductions, lengths and regimes listed; matrix shapes <= 3",
    C18="all partitions of 6 (7) elements into <= 4 (5) parts, all merge trees; all split points of long vectors",
    C19="1/13 and 1/29 of all floats (thorough: all), every exponent x patterned mantissas, all pairs of boundary values",
    C20="every position in every length <= 70, strides 1..3, tuples of 8 magnitudes")
for _k, _v in BOUNDS.items():
    SPEC[_k]["bounds"] = _v
