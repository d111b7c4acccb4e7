#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing; checks never run it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

DOM = ("every finite f32 or f64 matrix of any size (including 1x1, single-row/column and sizes above 100), any rank "
       "(full, deficient, zero), any entry pattern (graded, sparse, repeated, signed zeros, clustered or equal spectra) "
       "and any memory layout")
TST = "Tests sample at most 10x10 f64 matrices with uniform entries in [-100,100] at one fixed seed and compare with loose absolute tolerances; structured, degenerate, graded, f32 and larger inputs are never drawn."

p("C01", "QR reproduces the matrix with orthonormal Q and upper-triangular R",
  "For every matrix with at least as many rows as columns, the QR decomposition succeeds and yields Q (rows x cols) with orthonormal columns and a square upper-triangular R with exact zeros below the diagonal and a non-negative diagonal, such that Q*R equals the input to working precision (errors of the order of machine epsilon times the matrix norm). This holds for the combined accessor, for Q and R generated separately, and for the by-value and by-reference entry points.",
  ["inputs"], DOM + "; entries anywhere between 1e-280 and 1e280 (f32: 1e-33 to 1e33) or zero", TST,
  ["src/qr.rs", "src/householder.rs", "src/reflection.rs", "src/triangular.rs"],
  [("Householder sweep with sign-tracked reflectors", "src/qr.rs qr_into, src/householder.rs clear_column"), ("backward accumulation of Q", "src/householder.rs assemble_q")],
  ["qr / qr_into return", "generate_q, into_r, into_decomp return"])

p("C02", "QR solves and inverse are backward stable on invertible systems",
  "For every numerically nonsingular square matrix A (condition number at most 1e-3/epsilon) the QR-based solve of A*x=b, the transposed solve of A.t*x=b and the inverse succeed and satisfy their defining equation to working precision: each residual is of the order of machine epsilon times norm(A) times norm(x). All right-hand sides are solved independently: a solution column depends only on A and the matching right-hand-side column, for any number of columns including zero.",
  ["inputs"], "every finite square A with condition number up to 1e-3/epsilon, f32 and f64, any size, layout and scaling, and every right-hand side with 0..many columns in any layout", TST,
  ["src/qr.rs", "src/triangular.rs"], [("apply reflectors, then back-substitute with the separately stored diagonal", "src/qr.rs solve_into/solve_tr_into/inverse")],
  ["solve, solve_into, solve_tr, solve_tr_into, inverse return"])

p("C03", "Least squares minimises the residual for every full-rank shape",
  "For every full-rank A (tall, square or wide) and every right-hand side b the least-squares solution x is a minimiser of ||A*x-b||: the residual is orthogonal to the columns of A to working precision, in the consistent or wide case A*x equals b, and for wide A the returned x is the minimum-norm solution (it lies in the row space of A). The by-value and by-reference entry points agree.",
  ["inputs"], "every finite full-rank matrix (condition number up to 1e-2/sqrt(epsilon)) of any shape, f32/f64, any layout, with consistent and inconsistent right-hand sides of 0..many columns",
  "The integration test only uses consistent right-hand sides (b = A*x0), at most 10x10, and checks A*x=b; inconsistent systems - the reason least squares exists - and minimum norm are never tested.",
  ["src/qr.rs"], [("thin: R*x = Q.t*b; wide: QR of the transpose, x = Q*inv(R.t)*b", "src/qr.rs least_squares_into")], ["least_squares, least_squares_into return"])

p("C04", "QR reports exact singularity instead of returning garbage",
  "When QR elimination meets an exactly zero pivot (for instance the matrix contains an all-zero column, or is the zero matrix), the invertibility query answers false and solve, transposed solve, inverse and least squares all return the non-invertible error; when the query answers true, the same calls on compatible right-hand sides succeed. A successful solve of a numerically nonsingular system never contains NaN or infinity.",
  ["inputs"], "every rectangular shape, every position and number of zero columns (zero rows for wide least squares), every entry pattern, f32/f64, any layout",
  "One 2x2-type non-invertible example and random matrices that are never singular; the position of the zero pivot and the wide case are not varied.",
  ["src/qr.rs"], [("zero test on the stored diagonal before any division", "src/qr.rs is_invertible")], ["is_invertible, solve*, inverse, least_squares* return"])

p("C05", "Cholesky factor of a positive definite matrix reproduces it",
  "For every symmetric positive definite matrix (condition number at most 1e-3/(n*epsilon), n the dimension) every Cholesky entry point succeeds and yields L with positive diagonal whose lower triangle satisfies L*L.t = A to working precision; the non-dirty entry points return exact zeros above the diagonal, and the dirty ones agree with them on the lower triangle. In-place, by-value and by-reference variants produce the same factor.",
  ["inputs"], "every symmetric positive definite matrix with condition number up to 1e-3/epsilon, f32/f64, sizes 0..>100, any layout, any scaling between 1e-130 and 1e130 (f32: 1e-16..1e16)",
  "Tests use A.t*A+I with at most 10 columns and absolute 1e-7 tolerance; ill-conditioned, graded, large, f32 and scaled inputs are not drawn.",
  ["src/cholesky.rs", "src/triangular.rs"], [("column-by-row recurrence reading only the lower triangle", "src/cholesky.rs cholesky_inplace_dirty")], ["cholesky*, cholesky_into*, cholesky_inplace* return"])

p("C06", "Cholesky rejects every matrix that is not positive definite",
  "Cholesky and everything built on it (SPD solve and SPD inverse) return the not-positive-definite error for every symmetric matrix that is not positive definite beyond rounding (smallest eigenvalue below -n*epsilon*norm, or an exactly computable pivot that is zero or negative), at whatever position the failing pivot is, and for matrices whose diagonal or lower triangle contains NaN. They never return success with a factor containing NaN, nor with a solution or inverse containing NaN unless an intermediate result overflows.",
  ["inputs"], "every symmetric indefinite, negative or exactly semidefinite matrix whose failing pivot is at any position, and every square matrix with a NaN in the lower triangle; any size, layout and precision",
  "One 2x2 bad matrix is tested; the position of the failing pivot, exact zero pivots and NaN are never varied.",
  ["src/cholesky.rs"], [("pivot sign test before the square root", "src/cholesky.rs cholesky_inplace_dirty")], ["cholesky*, solvec*, invc* return"])

p("C07", "SPD solve and SPD inverse satisfy their defining equations",
  "For every symmetric positive definite matrix (condition number at most 1e-3/(n*epsilon), n the dimension) the Cholesky-based solve returns x with A*x=b, and the Cholesky-based inverse returns X with A*X=I, each with residual of the order of machine epsilon times norm(A) times norm of the result, for any number of right-hand sides. Afterwards, the matrix used in place holds a valid Cholesky factor in its lower triangle, and the by-reference inverse leaves its input unmodified.",
  ["inputs"], "every symmetric positive definite matrix with condition number up to 1e-3/epsilon, f32/f64, any size and layout, every right-hand side with 0..many columns in any layout", TST,
  ["src/cholesky.rs", "src/triangular.rs"], [("factor, then two triangular solves on the dirty factor", "src/cholesky.rs solvec_inplace/invc_inplace")], ["solvec, solvec_into, solvec_inplace, invc, invc_inplace return"])

p("C08", "Triangular extraction and the triangularity test are exact",
  "Making a square matrix upper (lower) triangular sets every entry strictly below (above) the diagonal to zero and leaves every other entry bit-for-bit unchanged, whatever the values (including NaN, infinities, signed zeros, integers). The triangularity test answers true exactly when the matrix is square and every entry strictly on the other side of the diagonal is zero.",
  ["inputs"], "every shape (square and not, including empty), both sides, every element type that has a zero, every position and value of a single off-side entry, every layout",
  "Fixed 1x1, 2x3 and 3x3 integer examples only.",
  ["src/triangular.rs"], [("index loops over the strict triangle", "src/triangular.rs triangular_inplace/is_triangular")], ["into_triangular, triangular_inplace, is_triangular return"])

p("C09", "Triangular solves are componentwise exact to rounding and read one triangle",
  "Solving a triangular system with nonzero diagonal returns x such that (A+E)*x=b with |E| of the order of machine epsilon times |A| entry by entry, for upper and lower systems and any number of right-hand sides, in the in-place, by-value and by-reference variants. The strictly opposite triangle of the matrix is never consulted: whatever it contains (NaN included) the result is identical.",
  ["inputs"], "every triangular matrix with nonzero diagonal, including badly conditioned ones, f32/f64, any size, layout and content of the other triangle; every right-hand side with 0..many columns in any layout",
  "Tests compare with a known x at absolute 1e-4 on <=10x10 systems whose other triangle is always zero, in C-like layouts.",
  ["src/triangular.rs"], [("column-oriented substitution slicing only the relevant triangle", "src/triangular.rs solve_triangular_system_common")], ["solve_triangular, solve_triangular_into, solve_triangular_inplace return"])

p("C10", "Symmetric tridiagonalisation is an orthogonal similarity",
  "For every non-empty symmetric matrix A the tridiagonal decomposition yields an orthogonal Q and a symmetric tridiagonal T (exact zeros beyond the first off-diagonals) with Q*T*Q.t = A to working precision. The diagonal and off-diagonal vectors returned separately are exactly the ones of the full T, and off-diagonal entries are non-negative.",
  ["inputs"], DOM + " (symmetric); entries between 1e-280 and 1e280 in magnitude (f32: 1e-33..1e33) or zero", TST,
  ["src/tridiagonal.rs", "src/householder.rs"], [("two-sided rank-2 Householder updates", "src/tridiagonal.rs sym_tridiagonal"), ("accumulation of Q with shift 1", "src/householder.rs assemble_q")], ["generate_q, into_diagonals, into_tridiag_matrix return"])

p("C11", "Bidiagonalisation reproduces the matrix from orthonormal factors",
  "For every non-empty rectangular matrix the bidiagonal decomposition yields U with orthonormal columns, Vt with orthonormal rows, and a square B that is exactly upper bidiagonal when rows >= cols and exactly lower bidiagonal otherwise (as its orientation query reports), with non-negative entries and U*B*Vt equal to the input to working precision. The separately returned diagonals are exactly those of B.",
  ["inputs"], DOM + " (tall, square and wide); entries between 1e-280 and 1e280 in magnitude (f32: 1e-33..1e33) or zero", TST,
  ["src/bidiagonal.rs", "src/householder.rs"], [("alternating column/row reflections, orientation chosen by shape", "src/bidiagonal.rs bidiagonal")], ["generate_u, generate_vt, into_b, into_diagonals, is_upper_diag return"])

p("C12", "Symmetric eigendecomposition is complete, orthonormal and accurate",
  "For every symmetric matrix A the eigendecomposition returns as many real eigenvalues as rows and a square matrix of orthonormal eigenvectors such that A*v_i = lambda_i*v_i for every pair, with residuals of the order of machine epsilon times norm(A). This includes repeated, clustered, zero and wildly graded eigenvalues, diagonal and nearly diagonal matrices, and the by-value and by-reference entry points.",
  ["inputs"], DOM + " (symmetric); overall scale anywhere in the normal floating-point range",
  TST + " (with random proptest seeds the existing test is known to fail occasionally.)",
  ["src/eigh.rs", "src/tridiagonal.rs", "src/givens.rs"], [("scaled tridiagonal QR iteration with Wilkinson shift and deflation", "src/eigh.rs symmetric_eig/delimit_subproblem"), ("closed-form 2x2 block", "src/eigh.rs compute_2x2_eigvals")], ["eigh, eigh_into return"])

p("C13", "SVD factors are orthonormal, non-negative and reproduce the matrix",
  "For every non-empty matrix A the SVD returns min(rows, cols) singular values, all finite and non-negative, U with orthonormal columns and Vt with orthonormal rows, with U*diag(s)*Vt = A to working precision, errors being of the order of machine epsilon times norm(A). This includes rank-deficient, zero, graded, nearly diagonal and nearly singular matrices of every shape.",
  ["inputs"], DOM + " (tall, square and wide); overall scale anywhere in the normal floating-point range",
  TST + " (with random proptest seeds the existing test is known to fail occasionally.)",
  ["src/svd.rs", "src/bidiagonal.rs", "src/givens.rs"], [("implicit-shift bidiagonal QR with deflation and zero-diagonal cancellation", "src/svd.rs svd/delimit_subproblem"), ("closed-form 2x2 block", "src/svd.rs compute_2x2_uptrig_svd"), ("final sign normalisation", "src/svd.rs svd")], ["svd, svd_into return"])

p("C14", "Requesting fewer factors never changes the values that are returned",
  "Eigenvalues computed without eigenvectors equal those computed with eigenvectors, and singular values are the same for all four combinations of requested factors, as multisets and to working precision relative to the norm. A factor is returned exactly when it was requested, and a factor requested alone still consists of orthonormal singular vectors that pair with the returned values.",
  ["inputs", "configurations"], DOM + ", for each of the option combinations",
  "Tests compare options only on the sampled <=10x10 uniform matrices.",
  ["src/svd.rs", "src/eigh.rs"], [("optional accumulation of rotations", "src/svd.rs svd, src/eigh.rs symmetric_eig")], ["svd(u, vt) return", "eigvalsh, eigvalsh_into, eigh return"])

p("C15", "Eigen and singular value decompositions are invariant under scaling",
  "Multiplying a matrix by any power of two that keeps its nonzero entries and its results within the range of normal floating-point numbers multiplies its eigenvalues and singular values by the same factor to working precision, and the returned vectors remain orthonormal eigenvectors or singular vectors to working precision. No overflow, underflow, NaN or loss of accuracy occurs for matrices near the top or the bottom of the floating-point range.",
  ["inputs"], "every finite matrix and every power-of-two factor such that the largest entry stays between about 1e-290 and 1e300 (f32: 1e-34 and 1e37)",
  "All test inputs have magnitude about 100.",
  ["src/eigh.rs", "src/svd.rs"], [("normalisation by the largest magnitude before iterating, rescaling after", "src/eigh.rs symmetric_eig, src/svd.rs svd")], ["eigh, eigvalsh, svd return"])

p("C16", "Every decomposition terminates within a bounded amount of work",
  "Every eigendecomposition, singular value decomposition and direct solve returns (with a value or an error) after an amount of arithmetic bounded by a modest polynomial in the matrix dimensions, for every input of its type, including NaN and infinite entries. The iterative eigensolver applies the user's operator at most once per permitted iteration plus one, the permitted number being the smaller of the requested maximum and ten times the problem size.",
  ["inputs"], "every finite or non-finite matrix, symmetric or not, of any size; every operator, order and iteration budget for the iterative solver",
  "Tests can only show that sampled inputs return; QR iterations without iteration cap may stall on inputs never sampled, and NaN is never sampled.",
  ["src/eigh.rs", "src/svd.rs", "src/lobpcg/algorithm.rs"], [("deflation test in the unbounded QR loops", "src/eigh.rs, src/svd.rs delimit_subproblem"), ("iteration counter", "src/lobpcg/algorithm.rs lobpcg")],
  ["count of scalar operations executed by the real generic code (counting scalar type)", "operator invocations"])

p("C17", "Sorting a decomposition permutes pairs consistently and in order",
  "Sorting an eigen or singular value decomposition in ascending or descending order returns the same multiset of values in that order, and the same eigenvector columns (left columns and right rows for SVD) bit for bit, each still attached to the value it came with, including when values are equal. Sorting bare eigenvalues gives the same value sequence, and absent factors stay absent.",
  ["inputs"], "every decomposition-shaped input (any number of values, ties, signed zeros, infinities, negative values, missing factors, any matrix layout), both orders",
  "Only checked through reconstruction on sampled decompositions; ties and layouts are not exercised.",
  ["src/eigh.rs", "src/svd.rs"], [("index sort followed by column/row gather", "src/eigh.rs EigSort, src/svd.rs SvdSort")], ["sort_eig*, sort_svd* return"])

p("C18", "Malformed shapes are rejected with the documented error, never a panic",
  "Each routine accepts exactly the shapes it documents (the direct routines and reflections; for the iterative ones, no more pairs than dimensions): a non-square matrix, a matrix with fewer rows than columns for QR, an empty matrix where a non-empty one is required, and a right-hand side with the wrong number of rows each yield the corresponding error carrying the actual dimensions, for every shape and side combination. No such call panics, and every well-shaped call (including zero-sized ones that are allowed) does not fail for a shape reason.",
  ["inputs"], "every routine crossed with all matrix shapes and right-hand-side shapes from 0x0 upward, all layouts, f32/f64",
  "Each error is tested on one or two fixed shapes; most routine/shape combinations, in particular empty ones, never run.",
  ["src/lib.rs", "src/qr.rs", "src/cholesky.rs", "src/triangular.rs", "src/eigh.rs", "src/svd.rs", "src/bidiagonal.rs", "src/tridiagonal.rs", "src/lobpcg/algorithm.rs", "src/lobpcg/eig.rs"],
  [("shape guards at entry", "src/lib.rs check_square and per-routine checks")], ["error value of every fallible public call"])

p("C19", "Routines modify exactly the data they are documented to modify",
  "Routines that take their input by reference leave every element of it bit-for-bit unchanged. Routines that work in place on a view modify only elements of that view: memory of the underlying buffer outside the view, and arguments passed for reading, stay untouched. A call rejected because of shapes leaves the right-hand side unmodified.",
  ["inputs"], "every routine, every view shape, offset, stride pattern (including negative and non-unit strides and transposes) into a larger buffer, accepted and rejected calls",
  "Tests never look at the surroundings of a view or at the inputs after the call.",
  ["src/cholesky.rs", "src/triangular.rs", "src/qr.rs", "src/eigh.rs", "src/svd.rs", "src/bidiagonal.rs", "src/tridiagonal.rs", "src/reflection.rs", "src/index.rs"],
  [("to_owned in by-reference traits; index arithmetic through ndarray views", "all trait impls")], ["bytes of the backing buffer before and after each call (canary cells)"])

p("C20", "No safe call can reach undefined behaviour",
  "No sequence of safe public calls, with any matrix shapes, layouts, views and values (including malformed and non-finite ones), performs an out-of-bounds or misaligned access, reads uninitialised memory or violates aliasing rules, in builds with and without debug assertions.",
  ["inputs", "configurations"], "every public routine crossed with shapes (including zero-sized and mismatched), layouts, strides and values; debug and release indexing",
  "The test profile keeps debug assertions on, so the unchecked indexing compiled into release builds is never executed by the tests, and no sanitizer runs.",
  ["src/index.rs", "src/cholesky.rs", "src/triangular.rs", "src/givens.rs", "src/eigh.rs", "src/svd.rs", "src/qr.rs"],
  [("shape checks that precede every unchecked index", "callers of src/index.rs at/atm")], ["AddressSanitizer, Miri, valgrind memcheck and checked-index panics"])

p("C21", "Results depend only on the arguments, in every build configuration",
  "Every routine is a pure function of its arguments and, for the randomised solvers, of the supplied generator's state: repeating a call, interleaving it with any other calls, using a clone of a decomposition object, querying a decomposition object repeatedly and in any order, or running on several threads at once gives bit-identical results. Results are also bit-identical with and without debug assertions and with and without the optional iterative feature.",
  ["histories", "schedules", "configurations"], "every call, every preceding history of calls on the same and other objects, any number of threads, each of the four build configurations",
  "Each test makes isolated calls once in one configuration.",
  ["src/qr.rs", "src/bidiagonal.rs", "src/tridiagonal.rs", "src/index.rs", "src/lobpcg/eig.rs", "src/lobpcg/svd.rs", "Cargo.toml"],
  [("no global state; decomposition accessors take &self", "all modules"), ("debug/release split of indexing", "src/index.rs")], ["bit patterns of all results"])

p("C22", "LOBPCG results are orthonormal Ritz pairs with honest residuals",
  "Whenever the iterative eigensolver returns a result (also one attached to an error), it contains exactly the requested number of eigenvalues sorted in the requested order and eigenvector columns that are orthonormal, and the reported residual norms equal the actual norms of A*x_i - lambda_i*x_i (of its component orthogonal to the constraints, if there are any) up to rounding. Each eigenvalue lies within its residual norm of a true eigenvalue and never beyond the extreme of the spectrum, and when constraints are given the eigenvectors are orthogonal to them.",
  ["inputs"], "every symmetric operator (definite or not, clustered, diagonal, low rank), block size up to the problem size, initial block, order, preconditioner, constraint block, tolerance and iteration budget; f64 and f32",
  "Tests use four fixed problems with one seed and only compare eigenvalues loosely.",
  ["src/lobpcg/algorithm.rs", "src/lobpcg/mod.rs"], [("Rayleigh-Ritz on span{X,R,P}, tracked best iterate", "src/lobpcg/algorithm.rs lobpcg"), ("projection onto the constraint complement", "src/lobpcg/algorithm.rs apply_constraints")], ["Lobpcg {eigvals, eigvecs, rnorm} and the operator calls"])

p("C23", "LOBPCG finds the extreme eigenpairs of well-posed problems",
  "On a symmetric problem whose wanted eigenvalues are separated from the rest, with a generic initial block, a reachable tolerance and a generous iteration budget, the iterative eigensolver returns the k largest (or smallest) eigenvalues and their eigenvectors, with errors bounded by the requested tolerance. With (full-rank, not necessarily orthonormal) constraints it returns the extreme eigenpairs of the operator restricted to the orthogonal complement of the constraints, and a symmetric positive definite preconditioner does not change the answer.",
  ["inputs"], "every separated spectrum (positive, negative, mixed signs, scaled by 2^-24 to 2^24 with the tolerance), k well below n, generic random starts, both orders, with and without constraints and preconditioner",
  "Four fixed problems at one seed; negative spectra, preconditioning and several constraints are never exercised together.",
  ["src/lobpcg/algorithm.rs", "src/lobpcg/eig.rs"], [("block Rayleigh-Ritz iteration with soft locking", "src/lobpcg/algorithm.rs lobpcg")], ["eigvals/eigvecs against a known spectrum"])

p("C24", "LOBPCG keeps its best iterate and stops only for a reason",
  "Rerunning the iterative eigensolver from the same start with a larger iteration budget never returns a result whose total residual is worse, and a zero budget returns the initial Rayleigh-Ritz approximation. For a single requested pair, Ok is returned only if the tolerance was reached or the iteration budget was used up, and a failure after the first iterate carries the best iterate found so far.",
  ["inputs", "histories"], "every operator, start, order, tolerance and every iteration budget from 0 upward",
  "No test varies the budget or inspects what is returned when convergence is not reached.",
  ["src/lobpcg/algorithm.rs"], [("best_result tracking and loop exit conditions", "src/lobpcg/algorithm.rs lobpcg")], ["results for successive budgets of the same deterministic run", "operator invocation count"])

p("C25", "The truncated eigen iterator enumerates distinct eigenpairs in order",
  "Iterating a truncated eigenproblem yields successive blocks of the configured step size (the last one possibly smaller, the total never exceeding the problem size), in which every pair is an eigenpair to the convergence threshold and all vectors over the whole iteration are mutually orthonormal and orthogonal to user-supplied constraints. For well-separated problems successive values follow the requested order and together enumerate the extreme part of the spectrum without repetition or omission, as long as at least five times the step size dimensions remain (always, with a step of one).",
  ["histories", "inputs"], "every symmetric problem, step size, order, seed, prefix length, initial constraints and preconditioner",
  "One diagonal 20x20 example, three steps of size one, values only.",
  ["src/lobpcg/eig.rs"], [("deflation by growing the constraint matrix", "src/lobpcg/eig.rs TruncatedEigIterator::next")], ["sequence of items yielded"])

p("C26", "Truncated SVD returns ordered, consistent singular triplets",
  "For every matrix shape the truncated SVD returns at most the requested number of singular values, finite, non-negative and sorted (descending for largest, ascending for smallest), together with equally many left columns and right rows of the right length; values-only and values-with-vectors agree. Every triplet whose value is well above rounding level satisfies A*v = s*u and A.t*u = s*v with orthonormal vectors up to the convergence precision, and for separated spectra the values are the extreme singular values of the matrix; requesting zero triplets yields an empty result.",
  ["inputs"], "every tall, wide and square matrix, rank-deficient ones included, norms from 2^-30 to 2^24, number of triplets from 0 to min(rows, cols), both orders, f64 and f32, any seed",
  "Three fixed matrices, largest order only; smallest order, wide large matrices, rank deficiency and zero triplets never run.",
  ["src/lobpcg/svd.rs"], [("Gram operator on the smaller side, square root and cut-off", "src/lobpcg/svd.rs decompose/singular_values_with_indices"), ("recovery of the other side's vectors", "src/lobpcg/svd.rs values_vectors")], ["values, values_vectors return"])

p("C27", "Vector and matrix norms equal their definitions",
  "For elements whose squares neither overflow nor underflow, the L1, L2 and maximum norms of an array of any dimension equal the sum of absolute values, the square root of the sum of squares and the largest absolute value of all its elements to working precision (the maximum norm exactly), whatever the memory layout; all are zero for an empty array.",
  ["inputs"], "every finite f32/f64 array of dimension 0 to 4, any layout, entries whose squares neither overflow nor underflow",
  "One fixed 2x2 array.",
  ["src/norm.rs"], [("iteration over all elements", "src/norm.rs")], ["norm_l1, norm_l2, norm_max return"])

p("C28", "Plane reflections are the documented isometric involution",
  "Reflecting the columns (rows) of a matrix maps every column (row) x to x - 2*(a.x - bias)*a, for the unit axis a and plane offset bias, to working precision; applying the reflection twice restores the matrix, distances between columns (rows) are preserved, and points of the plane stay fixed.",
  ["inputs"], "every unit axis (any length from 1, any layout), bias, and matrix with any number of columns/rows and any layout, f32/f64",
  "One coordinate-axis example with two bias values.",
  ["src/reflection.rs"], [("scaled_add per column; rows through the transposed view", "src/reflection.rs")], ["reflect_cols, reflect_rows effect"])

p("C29", "Accuracy scales with the precision of the element type",
  "All direct routines (QR, Cholesky, triangular, tri- and bidiagonal, symmetric eigen and singular value decompositions, and the solvers based on them) attain errors of the order of the element type's own machine epsilon, for single, double and any higher-precision floating-point element type a user supplies. No hidden constant or intermediate conversion limits the attainable precision.",
  ["inputs", "configurations"], "every element type implementing the required float interface (observed: f32, f64, and a 106-bit double-double), every well-scaled input",
  "Tests use f64 and a handful of fixed f32 examples.",
  ["src/qr.rs", "src/cholesky.rs", "src/triangular.rs", "src/tridiagonal.rs", "src/bidiagonal.rs", "src/eigh.rs", "src/svd.rs", "src/householder.rs", "src/givens.rs", "src/reflection.rs"],
  [("generic code using the element type's epsilon", "all modules")], ["residuals of the real code instantiated with a double-double scalar"])

p("C30", "Storage kind and memory layout do not affect results",
  "For the same matrix values every routine gives the same outcome whether the array is owned, shared, copy-on-write, a view or a mutable view, and whether it is stored row-major, column-major, reversed or strided: same success or error, same shapes, and results that agree to working precision.",
  ["inputs", "configurations"], "every routine, every storage kind and layout for each of its operands independently",
  "Tests vary axis inversion and transposition of owned arrays on the primary operand only.",
  ["src/qr.rs", "src/cholesky.rs", "src/triangular.rs", "src/tridiagonal.rs", "src/bidiagonal.rs", "src/eigh.rs", "src/svd.rs", "src/norm.rs", "src/index.rs"],
  [("generic over ndarray storage and strides", "all trait impls")], ["results for each storage/layout against the row-major owned reference"])

p("C31", "Truncated solvers run with exactly the configuration they were given",
  "A truncated eigen or singular value decomposition has the outcome of the iterative eigensolver run from the same start block with the configured matrix, order, precision (squared for singular values), iteration limit, constraints and preconditioner. The builder methods may be called in any order, a later call replaces an earlier one, and parameters never set behave like a precision of 1e-5 and a limit of twice the number of rows.",
  ["inputs", "configurations"], "every symmetric or rectangular problem, order, number of pairs, precision, iteration limit, constraints, preconditioner and sequence of builder calls",
  "The tests only look at converged results, for which the configured limit, precision and preconditioner are invisible.",
  ["src/lobpcg/eig.rs", "src/lobpcg/svd.rs"], [("parameters handed over to lobpcg", "src/lobpcg/eig.rs decompose"), ("Gram operator and squared precision", "src/lobpcg/svd.rs decompose")], ["TruncatedEig::decompose and TruncatedSvd::decompose results against direct lobpcg runs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for q in P: jsonschema.validate(q, sch)
print(len(P), "properties")
