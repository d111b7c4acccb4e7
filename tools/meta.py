"""Per-property run sizes and texts shared by ./check and tools/gen_manifest.py."""

# cases in the unchecked (release) and in the checked build, quick tier; thorough multiplies
CASES = {
    "C01": (300_000, 100_000), "C02": (100_000, 35_000), "C03": (200_000, 70_000),
    "C04": (1_200_000, 300_000), "C05": (120_000, 50_000), "C06": (1_200_000, 400_000),
    "C07": (120_000, 45_000), "C08": (5_000_000, 1_500_000), "C09": (1_000_000, 350_000),
    "C10": (90_000, 25_000), "C11": (120_000, 35_000), "C12": (110_000, 30_000),
    "C13": (160_000, 35_000), "C14": (100_000, 20_000), "C15": (160_000, 40_000),
    "C16": (500_000, 90_000), "C17": (3_000_000, 800_000), "C18": (90_000, 14_000),
    "C19": (3_000_000, 1_000_000), "C20": (0, 40_000), "C21": (20_000, 5_000),
    "C22": (250_000, 60_000), "C23": (30_000, 9_000), "C24": (80_000, 15_000),
    "C25": (80_000, 15_000), "C26": (350_000, 80_000), "C27": (5_000_000, 2_000_000),
    "C28": (4_000_000, 2_000_000), "C29": (200_000, 70_000), "C30": (70_000, 18_000),
    "C31": (150_000, 40_000),
}
THOROUGH_FACTOR = 25

_MAT = ("seeded random cases: {what}; shapes mostly 1..40 and up to 160, f32 and f64, values from about thirty "
        "families (random, graded, rank-deficient, clustered or repeated spectra, orthogonal, permutation, banded, "
        "Hilbert, Laplacian, single-entry, tiny-sprinkled, denormal and near-overflow scales), in random memory "
        "layouts (C, Fortran, strided, reversed, padded windows, transposed) and storage kinds (owned, view, shared, "
        "copy-on-write). A case is non-trivial when {nt}; distinct means a distinct hash of the input bits.")

RULES = {
    "C01": _MAT.format(what="one QR decomposition by one of the entry points", nt="both dimensions exceed 1"),
    "C02": _MAT.format(what="square and tall systems solved through QR with condition-number-controlled matrices", nt="the dimension exceeds 1"),
    "C03": _MAT.format(what="one least-squares problem, tall or wide", nt="both dimensions exceed 1"),
    "C04": _MAT.format(what="one exactly singular or clearly regular matrix and all invertibility queries on it", nt="the dimension exceeds 1"),
    "C05": _MAT.format(what="one symmetric positive definite matrix with entries outside the used triangle replaced by garbage", nt="the dimension exceeds 1"),
    "C06": _MAT.format(what="one symmetric matrix that is clearly definite or clearly not (including NaN and infinite pivots)", nt="the dimension exceeds 1"),
    "C07": _MAT.format(what="one SPD system, solved or inverted, by one of the entry points", nt="the dimension exceeds 1"),
    "C08": _MAT.format(what="triangle extraction and triangularity queries on one matrix, including NaN and signed zeros", nt="both dimensions exceed 1"),
    "C09": _MAT.format(what="one triangular system with garbage in the unused triangle", nt="the dimension exceeds 1"),
    "C10": _MAT.format(what="one symmetric matrix tridiagonalised and all accessors of the decomposition", nt="the dimension exceeds 1"),
    "C11": _MAT.format(what="one bidiagonal decomposition and all its accessors", nt="both dimensions exceed 1"),
    "C12": _MAT.format(what="one symmetric eigendecomposition", nt="the dimension exceeds 1"),
    "C13": _MAT.format(what="one singular value decomposition", nt="both dimensions exceed 1"),
    "C14": _MAT.format(what="one symmetric or rectangular matrix and its values with and without each of the factors", nt="the dimension exceeds 1"),
    "C15": _MAT.format(what="one matrix and its multiple by a power of two drawn from the whole admissible exponent range", nt="the dimension exceeds 1"),
    "C16": _MAT.format(what="one decomposition with scalars that count operations, a third of the inputs with NaN, infinite or huge entries", nt="the smaller dimension exceeds 1"),
    "C17": "seeded random (values, vectors) tuples with many ties, signed zeros and extreme values, or genuine decompositions, sorted in either direction; entries encode their origin. Non-trivial: at least two values.",
    "C18": "the first 450 cases enumerate all shapes up to 4x4 with right-hand sides of 0..5 rows; the rest are random shapes up to 40; every public routine is called on each. All cases count as non-trivial; distinct means a distinct shape combination.",
    "C19": "seeded random calls of in-place and by-value routines on strided windows inside a buffer of canaries, on shared storage, and on mismatched right-hand sides. Non-trivial: the window has more than one element.",
    "C20": "seeded random calls over all public routines with well-formed, malformed, strided, shared, zero-sized and non-finite arguments, each executed under AddressSanitizer with unchecked indexing, under Miri with unchecked indexing and in a build with checked indexing (disjoint case ranges). All cases count as non-trivial; distinct means a distinct case stream.",
    "C21": "seeded random operation histories over all public routines; digests of the complete outcome (bit patterns) are compared after reordering, interleaving, on copies, on threads, and between builds. All cases are non-trivial; distinct means a distinct input seed.",
    "C22": "seeded random symmetric operators with controlled spectra, start blocks, constraints, preconditioners, tolerances and iteration limits. Non-trivial: the problem has at least two dimensions.",
    "C23": "seeded random operators with known spectra, well-separated wanted pairs and constraint subspaces. Non-trivial: the problem has at least two dimensions.",
    "C24": "seeded random problems solved with randomly drawn orderings, tolerances, iteration limits and repeated queries. Non-trivial: the problem has at least two dimensions.",
    "C25": "seeded random histories of TruncatedEig queries and complete iterator runs with varying step sizes. Non-trivial: the problem has at least two dimensions.",
    "C26": "seeded random tall and wide matrices with controlled singular values, truncated from either end. Non-trivial: both dimensions exceed 1.",
    "C27": "seeded random arrays of 0 to 4 dimensions in random layouts. Non-trivial: more than one element.",
    "C28": "seeded random unit axes, biases and matrices reflected by columns and rows. Non-trivial: the axis has more than one component.",
    "C29": "seeded random matrices decomposed in f32, in f64 and in a third-party double-double scalar type. Non-trivial: both dimensions exceed 1.",
    "C31": "seeded random truncated eigen and singular value problems; builder methods called in random order, repeated or left out; each outcome is compared with direct LOBPCG runs from the same start block for every smaller iteration budget. Non-trivial: no residual is so close to the tolerance that the comparison is undecided.",
    "C30": "seeded random matrices, each run through all eight memory layouts times four storage kinds of one routine. All cases count as non-trivial; distinct means distinct inputs.",
}

ASSUME = ["executions observed only: nothing is claimed about inputs the workload did not produce",
          "tolerances are backward-error bounds calibrated with a margin on the unchanged tree",
          "the oracle's double-double arithmetic and Jacobi reference are trusted"]
