#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run to regenerate both."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe or [], note=note, technique=technique))
L = "include/tlapack/lapack/"
B = "include/tlapack/blas/"
def lap(*n): return [L + x + ".hpp" for x in n]
def bla(*n): return [B + x + ".hpp" for x in n]

prop("B01", "Level-1 BLAS computes its definition on any vectors",
 "For vectors of any length (including empty), any stride, storage direction and real, complex or mixed scalar types, the vector operations (sum of absolute values, axpy, copy, dot with and without conjugation, scaling, swap, plane rotation and modified rotation) return exactly what their mathematical definition gives whenever every intermediate is exactly representable. Elements between the strides and outside the vectors are never read into the result or written, and operands documented as input are unchanged.",
 ["inputs","configurations"], "all lengths >= 0, all strides/directions, all scalar type combinations, all coefficient values",
 "No test calls these routines directly: they are reached only through factorizations on contiguous columns of a few fixed sizes and one scalar type per run.",
 bla("asum","axpy","copy","dot","dotu","scal","swap","rot","rotm"), [("vector loops", B+"*.hpp")])

prop("B02", "NaNs, infinities and the largest entry are located as documented",
 "The index-of-maximum search returns, in this order of priority, the first NaN, the first infinity, or the first entry of largest magnitude (0 for an empty vector), also when the magnitude of a complex entry overflows, and honours a user-supplied magnitude and the option that turns NaN checking off. The NaN and infinity detectors for matrices report one exactly when the referenced part (general, upper, lower, Hessenberg or banded) contains one, never because of entries outside that part.",
 ["inputs","configurations"], "all vectors and matrices, every position and combination of NaN/Inf/ties/overflowing magnitudes, every access type",
 "Index search is only used by tests through LU on well-scaled finite data; the detectors are never tested with a NaN placed at each position of each access type.",
 bla("iamax")+lap("hasnan","hasinf"), [("two-phase scan with NaN check", B+"iamax.hpp"), ("per-uplo scan", L+"hasnan.hpp")])

prop("B03", "Level-2 BLAS products and rank updates equal their definition",
 "Matrix-vector products with general, symmetric and Hermitian matrices and rank-1/rank-2 updates produce exactly the mathematically defined result for every shape, transposition, triangle selector, coefficient, stride and layout whenever all intermediates are exactly representable. Only the selected triangle of a symmetric or Hermitian operand is read or written, the imaginary part of a Hermitian diagonal is ignored on input and zero on output of an update, and input operands are unchanged.",
 ["inputs","configurations"], "all shapes, op/uplo flags, coefficients, strides, layouts and scalar types",
 "These routines have no direct tests (the testBLAS submodule is absent); the LAPACK tests reach a few flag combinations with coefficients 1 and -1.",
 bla("gemv","ger","geru","hemv","symv","her","her2","syr","syr2"), [("flag-specialised loops", B+"gemv.hpp")])

prop("B04", "Triangular multiply and solve are exact inverses of each other",
 "Triangular matrix-vector and matrix-matrix multiplication give the defined result, and the triangular solvers give the solution of the defined system, for every side, triangle, transposition (including conjugation without transposition where accepted), unit or non-unit diagonal, coefficient and shape; exactly when all intermediates are representable and to a componentwise small backward error otherwise. The opposite triangle, and the diagonal in the unit case, are never read, and the triangular operand is unchanged.",
 ["inputs","configurations"], "all side/uplo/op/diag combinations, all shapes, coefficients, layouts and scalar types",
 "Tests reach these only through a few LAPACK drivers; most of the 24+ flag combinations and the non-unit alpha cases are never executed.",
 bla("trmv","trsv","trmm","trsm"), [("flag-specialised loops", B+"trsm.hpp")])

prop("B05", "Level-3 BLAS products and rank-k updates equal their definition",
 "General, symmetric and Hermitian matrix multiplication and rank-k / rank-2k updates produce exactly the mathematically defined result for every side, triangle, transposition, shape (including zero dimensions), coefficient, layout and mix of scalar types whenever all intermediates are exactly representable. Only the selected triangle is read or written, Hermitian diagonals are treated as real on input and are real on output, and nothing outside the output operand changes.",
 ["inputs","configurations"], "all flags, shapes, coefficients, layouts and scalar type mixes",
 "test_optBLAS samples one call shape; the factorization tests use alpha = +-1, beta = 1 and a handful of flag combinations.",
 bla("gemm","symm","hemm","syrk","herk","syr2k","her2k"), [("flag-specialised loops", B+"gemm.hpp")])

prop("B06", "Strong-zero coefficients discard operands; plain zeros propagate NaN",
 "When a coefficient is the library's strong-zero constant the operand it multiplies contributes nothing to the result even if it contains NaN, infinity or uninitialised data, so an output multiplied by a strong zero is simply overwritten; the calls that omit the coefficient behave the same way. The strong-zero type obeys its documented arithmetic with every scalar type, and an ordinary coefficient, zero or not, lets NaN in the operands it multiplies reach every result entry that mathematically depends on it.",
 ["inputs","configurations"], "all BLAS operations taking coefficients, all positions of NaN/Inf, all scalar types",
 "The tests never place NaN or uninitialised data in operands that a zero coefficient should discard, nor check that NaN is not lost.",
 ["include/tlapack/base/StrongZero.hpp"]+bla("gemm","gemv","hemm","herk","trmm"), [("StrongZero operator overloads","include/tlapack/base/StrongZero.hpp")])

prop("B07", "Norms, hypotenuse, division and scaling avoid avoidable overflow/underflow",
 "The Euclidean norm and scaled sum of squares, the two- and three-argument hypotenuse, robust complex division, reciprocal scaling, and matrix rescaling return results accurate to a modest multiple of the working precision whenever the exact result is representable, even if squares, intermediate products or reciprocals of the inputs overflow or underflow. NaN and infinity in the input are reflected in the result.",
 ["inputs"], "all finite inputs over the whole exponent range, including subnormals, zeros, infinities and NaN",
 "Tests use a few hand-picked extreme values for rscl and ladiv; the exponent range of two to many operands is never explored.",
 bla("nrm2")+lap("lassq","lapy2","lapy3","ladiv","rscl","lascl"), [("Blue's accumulators", L+"lassq.hpp"),("scaling loops", L+"lascl.hpp")])

prop("B08", "Generated rotations annihilate, and rotation sequences equal one-by-one use",
 "Every generated plane rotation is unitary to working precision, maps the given pair to (r, 0), and does so without avoidable overflow or underflow; the modified rotation generator keeps its scaled-rotation contract. Applying a sequence of rotations to a matrix from either side, forward or backward, in the plain or the blocked form, is the same as applying the rotations one at a time in the documented order.",
 ["inputs","configurations"], "all operand magnitudes, real and complex, all side/direction flags and matrix shapes",
 "Sequence tests use three fixed sizes; rotation generation has no direct test at all.",
 bla("rotg","lartg","rotmg","rotm","rot")+lap("rot_sequence","rot_sequence3"), [("scaled rotg", B+"rotg.hpp"),("wavefront blocking", L+"rot_sequence3.hpp")])

prop("B09", "Matrix norms equal their definition and propagate NaN",
 "The max, one, infinity and Frobenius norms of general, symmetric, Hermitian and triangular (unit and non-unit) matrices equal their definition to a small relative error for every shape, triangle, layout and scale, with or without caller-provided workspace. A NaN anywhere in the referenced part yields NaN (an infinity yields a non-finite value), and entries outside the referenced part have no influence.",
 ["inputs","configurations"], "all shapes, norm kinds, uplo/diag flags, layouts, magnitudes, non-finite entries",
 "test_norms uses a few fixed shapes with all-equal or random entries and no unreferenced garbage.",
 lap("lange","lansy","lanhe","lantr","infnorm_colmajor","infnorm_hermitian_colmajor","infnorm_symmetric_colmajor","infnorm_triangular_colmajor"), [("norm dispatch", L+"lange.hpp")])

prop("B10", "Copy, set, transpose, conjugate, sort, merge and random fill do exactly that",
 "Copying or initialising the full matrix or one triangle, transposing and conjugate-transposing (plain or blocked), conjugating, and merging or sorting arrays produce exactly the specified entries and leave every other entry untouched. Sorting and merging yield a sorted permutation of the input; the random generator is a deterministic function of its seed, stays in its documented range and advances the seed.",
 ["inputs","configurations"], "all shapes, uplo selectors, block sizes, layouts, array lengths and contents with ties",
 "Tests cover one or two shapes per routine and do not check untouched regions.",
 lap("lacpy","laset","transpose","conjugate","lasrt","lamrg","larnv"), [("recursive transpose", L+"transpose.hpp")])

prop("F01", "Householder reflectors annihilate, and blocked application equals one by one",
 "A generated elementary reflector is unitary to working precision and maps the given vector to a real multiple of the first unit vector in each storage direction, also for zero, tiny and huge vectors. Applying a reflector, or a block of reflectors through its triangular factor, from either side, transposed or not, in every direction and storage order, equals the product of the individual reflectors to working precision.",
 ["inputs","configurations"], "all lengths, block sizes, storage/direction/side/op flags, magnitudes, scalar types",
 "Tests check one application form on a fixed vector; extreme scales and most flag combinations are unexplored.",
 lap("larfg","larf","larft","larfb"), [("rescaling loop", L+"larfg.hpp"),("compact WY", L+"larfb.hpp")])

prop("F02", "QR, LQ, QL and RQ factorizations are backward stable in every variant",
 "For every matrix (any shape, rank, scale, graded or zero), each orthogonal factorization - unblocked, blocked with any block size, compact-WY, recursive - yields a triangular or trapezoidal factor and an orthogonal factor whose product reproduces the input to a small multiple of the working precision, with the orthogonal factor orthogonal to the same accuracy. All variants of one factorization agree with each other.",
 ["inputs","configurations"], "all shapes, ranks, scales, block sizes, variants and scalar types",
 "Tests factor uniformly random well-scaled matrices of a few fixed sizes; LQ/QL/RQ blocked tests are disabled.",
 lap("geqr2","geqrf","geqrt3","gelq2","gelqf","gelqt","geql2","geqlf","gerq2","gerqf","householder_qr","householder_lq","householder_ql","householder_rq","trge_qr2"), [("panel + larfb update", L+"geqrf.hpp")])

prop("F03", "Generated and implicitly applied orthogonal factors are the same operator",
 "Forming the orthogonal factor of any of the four factorizations explicitly (full, thin or with more columns than reflectors) and multiplying by it implicitly from either side, transposed or not, blocked or unblocked, with any block size, give the same operator, which is orthogonal to working precision. The stored reflectors are unchanged after an implicit multiplication.",
 ["inputs","configurations"], "all shapes m,n,k, sides, ops, block sizes, storage directions and scalar types",
 "Tests use a few fixed shapes and mostly square operands.",
 lap("ung2r","ung2l","ungl2","ungr2","ungq","ungqr","unglq","ungql","ungrq","ungq_level2","unm2r","unm2l","unml2","unmr2","unmq","unmqr","unmlq","unmql","unmrq","unmq_level2","gen_householder_q","householder_q_mul"), [("blocked back-accumulation", L+"ungq.hpp")])

prop("F04", "LU factorization reproduces the row-permuted matrix with partial pivoting",
 "For every rectangular matrix, both LU variants yield unit-lower and upper factors whose product equals the row-permuted input to a small multiple of the working precision, with every multiplier bounded by one in the pivoting magnitude and every pivot index in range. The return code is zero exactly when no pivot is zero and otherwise identifies the first zero pivot, and the variants agree.",
 ["inputs","configurations"], "all shapes including singular, rank-deficient, tie-pivot, graded matrices and all scalar types",
 "test_getrf uses random nonsingular matrices of fixed sizes; singular inputs and ties never occur.",
 lap("getrf","getrf_level0","getrf_recursive"), [("recursive splitting and swaps", L+"getrf_recursive.hpp")])

prop("F05", "Computed inverses are inverses, and singularity is reported",
 "Inverting a general matrix from its LU factors (each method), a triangular matrix (either triangle, unit or not) or a positive definite matrix gives a matrix whose residual with the original is small relative to their norms and the working precision. A zero on the diagonal is reported by a nonzero return code naming its position, and the unreferenced triangle is untouched.",
 ["inputs","configurations"], "all sizes, methods, uplo/diag flags, conditioning within precision, singular inputs, scalar types",
 "Tests invert random well-conditioned matrices of a few sizes and never feed a singular one.",
 lap("getri","getri_uili","getri_uxli","trtri_recursive","potri","ul_mult"), [("recursive triangular inverse", L+"trtri_recursive.hpp")])

prop("F06", "Cholesky factorizations are backward stable and locate the first failing minor",
 "For Hermitian positive definite matrices (full, banded, tridiagonal), every variant with any block size yields a triangular factor with real positive diagonal whose product reproduces the input to a small multiple of the working precision, and solves with it are backward stable. If the matrix is not positive definite the reported code is the order of the first leading minor that is not (so the preceding leading block is correctly factored); the opposite triangle is never read or written.",
 ["inputs","configurations"], "all sizes, variants, block sizes, bandwidths, uplo flags, indefinite inputs failing at every position, scalar types",
 "Tests use diagonally dominant matrices of a few sizes; indefinite inputs are not tested at each position and variant.",
 lap("potrf","potf2","potrf2","potrf_blocked","potrf_blocked_right_looking","potrs","pbtrf_with_workspace","pttrf"), [("variant dispatch", L+"potrf.hpp")])

prop("F07", "In-place and out-of-place triangular products equal the explicit product",
 "The kernels that multiply triangular factors in place (L times U, U times L, triangle times its adjoint in each order, Hermitian times Hermitian), and the specialised out-of-place, mixed-uplo, triangular-result and Hermitian-times-general products and triangular-by-triangular solves, equal the product formed explicitly from the referenced triangles to working precision for every flag and size. Entries outside the documented output region are not modified.",
 ["inputs","configurations"], "all sizes, uplo/op/diag/side flags, coefficients, block sizes and scalar types",
 "Tests cover a handful of fixed sizes and flags, and rarely check untouched regions.",
 lap("lauum_recursive","lu_mult","ul_mult","mult_llh","mult_uhu","mult_hehe","hemm2","gemmtr","trmm_out","trmm_blocked_mixed","trsm_tri"), [("recursive splitting", L+"lauum_recursive.hpp")])

prop("F08", "Tikhonov-regularized least squares minimizes its objective by every method",
 "For any overdetermined or square system and any regularization parameter, each available method (QR, bidiagonalization, SVD based) returns the minimizer of the regularized residual: its normal-equation gradient is small relative to the data and the working precision, and all methods agree to the accuracy the conditioning permits.",
 ["inputs","configurations"], "all m >= n, right-hand sides, lambda over many magnitudes, methods and scalar types",
 "test_tikhonov uses three sizes and a few lambdas.",
 lap("tik_qr","tik_bidiag_elden","tik_svd","tkhnv"), [("stacked QR", L+"tik_qr.hpp")])

prop("F09", "Symmetric-indefinite (Bunch-Kaufman) factorization reproduces the matrix stably",
 "For any symmetric or Hermitian matrix, given by either triangle, the diagonal pivoting (Bunch-Kaufman) factorization with any block size returns pivot indices in range, marked in pairs for 2-by-2 blocks, and factors which, combined as documented, reproduce the input to working precision relative to the product of the absolute factors; that product stays within the bound the pivoting strategy guarantees, whatever the diagonal (zero, tiny) and scale. A zero 1-by-1 block of D is reported, by its position, exactly when there is one, and the factorization is complete all the same; the other triangle is never touched.",
 ["inputs","configurations"], "all n, uplo, Trans/ConjTrans, block sizes, pivot patterns, singular and badly scaled inputs, scalar types",
 "Its only test is not part of the test build.",
 lap("hetrf","hetrf_blocked","hetf3"), [("panel and pivot choice", L+"hetf3.hpp")])

prop("E01", "Hessenberg and tridiagonal reductions are unitary similarities",
 "Reducing any square matrix (or its active block) to upper Hessenberg form, unblocked or blocked with any block size and crossover, and any Hermitian matrix to tridiagonal form from either triangle, gives a factor Q that is unitary to working precision with Q times the condensed form times its adjoint reproducing the input to working precision. Generating Q and multiplying by it implicitly agree, and rows and columns outside the active block are treated as documented.",
 ["inputs","configurations"], "all n, ilo/ihi, block sizes, crossovers, uplo flags, matrix structure and scale, scalar types",
 "Tests use a few sizes with default or fixed block sizes, mostly the full range.",
 lap("gehd2","gehrd","lahr2","hessenberg","unghr","unmhr","hetd2","ungtr"), [("blocked panel", L+"lahr2.hpp")])

prop("E02", "Bidiagonal reduction reproduces the matrix with unitary factors",
 "Reducing any rectangular matrix to bidiagonal form, unblocked or blocked with any block size, and generating its left and right factors in any documented size, gives unitary factors and a real or complex bidiagonal matrix whose triple product reproduces the input to a small multiple of the working precision, upper bidiagonal for tall and lower bidiagonal for wide matrices.",
 ["inputs","configurations"], "all shapes, block sizes, ranks, scales, scalar types",
 "test_bidiag covers a few shapes and block sizes with random data.",
 lap("gebd2","gebrd","labrd","bidiag","ungbr"), [("panel reduction", L+"labrd.hpp")])

prop("E03", "Singular value decompositions are correct, ordered and backward stable",
 "For any matrix, the SVD driver and the bidiagonal QR iteration return nonnegative singular values in decreasing order and unitary singular vector matrices whose triple product reproduces the input to working precision; the values do not depend on whether vectors are requested. The 2-by-2 triangular kernels agree with the definition to high relative accuracy.",
 ["inputs","configurations"], "all shapes, ranks, clustered/zero/graded singular values, want-vector flags, scalar types",
 "test_gesvd and test_svd_qr use random matrices of fixed sizes with all vectors requested in most cases.",
 lap("gesvd","svd_qr","svd22","singularvalues22"), [("implicit zero-shift QR", L+"svd_qr.hpp")])

prop("E04", "Symmetric tridiagonal eigenproblems are solved accurately and in order",
 "The symmetric tridiagonal QR eigensolver returns the eigenvalues in increasing order with an orthogonal eigenvector matrix reproducing the input, values independent of whether vectors are requested; the 2-by-2 symmetric kernels return the exact eigen-decomposition to working precision with the documented ordering. The divide-and-conquer secular-equation solver returns the requested root, interlaced with the poles, together with accurate pole distances.",
 ["inputs","configurations"], "all n, split/clustered/graded/zero off-diagonals, magnitudes, secular poles and weights",
 "Tests use random matrices of fixed sizes; the kernels lae2/laev2 have their tests disabled.",
 lap("steqr","lae2","laev2","laed4","laed5","laed6"), [("implicit QL/QR with splitting", L+"steqr.hpp")])

prop("E05", "QR algorithms deliver a Schur form unitarily similar to the input",
 "For any upper Hessenberg matrix (or active block), the double-shift and the multishift QR algorithms with aggressive early deflation, with any option setting, either report failure through the return code or deliver an upper (quasi-)triangular matrix with standardized 2-by-2 blocks, unitary accumulated vectors reproducing the input to working precision, and eigenvalues equal to those of its diagonal blocks. The eigenvalues do not depend on whether the Schur form or the vectors are requested, and entries outside the active block are transformed only as documented.",
 ["inputs","configurations"], "all n, ilo/ihi, want flags, shift/deflation-window options, structured and extreme matrices, scalar types",
 "Tests sample a few structured matrices and sizes with default options.",
 lap("lahqr","multishift_qr","multishift_qr_sweep","aggressive_early_deflation","move_bulge","lahqr_schur22","lahqr_eig22","lahqr_shiftcolumn","qr_iteration"), [("deflation checks", L+"lahqr.hpp")])

prop("E06", "Reordering a Schur form preserves similarity and moves the chosen block",
 "Swapping adjacent diagonal blocks, or moving a block to any position, in a (quasi-)triangular Schur form keeps it (quasi-)triangular, moves the intended eigenvalues, and updates the vectors so that the product still reproduces the original matrix to working precision; a swap that would be too inaccurate is reported and leaves a valid decomposition. The small Sylvester solver returns a scaled solution with small residual and a scale factor in (0,1] that prevents overflow.",
 ["inputs","configurations"], "all sizes, block sizes 1/2, positions, eigenvalue separations, scalar types",
 "Tests use random matrices with fixed positions and well-separated eigenvalues.",
 lap("schur_swap","schur_move","lasy2"), [("direct swap via lasy2", L+"schur_swap.hpp")])

prop("E07", "Hessenberg-triangular reduction is a unitary equivalence",
 "Reducing a matrix pair to Hessenberg-triangular form, unblocked or blocked with any block size and on any active range, and the related RQ re-triangularization kernels, yield an upper Hessenberg and an upper triangular matrix with unitary accumulated factors that reproduce both input matrices to working precision, whether or not the factors are requested.",
 ["inputs","configurations"], "all n, ilo/ihi, block sizes, want flags, singular B, scalar types",
 "Tests use three sizes with random B.",
 lap("gghrd","gghd3","hessenberg_rq","inv_house3"), [("rotation accumulation", L+"gghd3.hpp")])

prop("E08", "QZ algorithms deliver a generalized Schur form equivalent to the input pencil",
 "For any Hessenberg-triangular pencil (or active block), the double-shift and multishift QZ algorithms either report failure or deliver an upper (quasi-)triangular and an upper triangular matrix with standardized 2-by-2 blocks, unitary left and right factors reproducing both inputs to working precision, and generalized eigenvalues (alpha, beta) matching the diagonal blocks, including infinite eigenvalues from a singular triangular factor. The 2-by-2 kernels meet their contracts for all magnitudes they claim.",
 ["inputs","configurations"], "all n, ilo/ihi, want flags, options, singular and graded pencils, scalar types",
 "Tests sample fixed sizes with random pencils and default options.",
 lap("lahqz","multishift_qz","multishift_qz_sweep","aggressive_early_deflation_generalized","lahqz_eig22","lahqz_schur22","lahqz_shiftcolumn"), [("deflation of zero B diagonal", L+"lahqz.hpp")])

prop("E09", "Reordering a generalized Schur form preserves the pencil",
 "Swapping adjacent diagonal blocks, or moving a block to any position, of a generalized Schur form keeps both factors (quasi-)triangular, moves the intended generalized eigenvalues, and updates both vector matrices so that both original matrices are still reproduced to working precision; a rejected swap is reported and leaves a valid decomposition.",
 ["inputs","configurations"], "all sizes, block-size pairs, positions, eigenvalue separations, scalar types",
 "Tests use fixed positions on random pencils.",
 lap("generalized_schur_swap","generalized_schur_move"), [("direct swap", L+"generalized_schur_swap.hpp")])

prop("E10", "Computed eigenvectors satisfy the eigen-equation without overflow",
 "From any (quasi-)triangular Schur form, the left and right eigenvector solvers - level-2 and blocked, all or selected, with or without back-transformation - return nonzero vectors whose eigen-residual is small relative to the matrix and working precision, in the documented real/complex pair storage, also when eigenvalues coincide or the triangular solves would overflow without scaling. The overflow-protection kernels return scale factors for which the protected operation cannot overflow.",
 ["inputs","configurations"], "all n, block structures, selections, block sizes, repeated/ill-conditioned eigenvalues, huge and tiny scales, scalar types",
 "Tests use random Schur forms of a few sizes; only fixed overflow examples are exercised.",
 lap("trevc","trevc3","trevc_backsolve","trevc_forwardsolve","trevc3_backsolve","trevc3_forwardsolve","trevc_protect"), [("protected back substitution", L+"trevc_backsolve.hpp")])

prop("X01", "Invalid arguments are rejected before any operand changes",
 "With input checking enabled, calling a routine with incompatible dimensions or an invalid option value raises the documented domain error, and every output operand is still bit-for-bit what it was before the call. Valid calls, including all zero-dimension cases, never raise it.",
 ["inputs","configurations"], "all routines with checked preconditions, every single mismatched dimension or invalid flag, every empty shape",
 "Tests contain almost no negative calls; each check is a separate condition no test violates.",
 ["include/tlapack/base/exceptionHandling.hpp"]+bla("gemm","trsm")+lap("potrf","getrf"), [("tlapack_check macros","include/tlapack/base/exceptionHandling.hpp")])

prop("X02", "Workspace queries are sufficient and workspace contents are irrelevant",
 "For every routine with a workspace variant, a caller-provided workspace of exactly the queried size is enough: the call succeeds, never touches memory outside the workspace, and gives the same result as the self-allocating variant whatever garbage the workspace held. Combining queries by maximum or by sum yields a query that covers both parts.",
 ["inputs","configurations"], "all routines with a workspace query, all shapes and options, all initial workspace contents, all pairs of query sizes",
 "Tests deliberately let each routine allocate its own workspace, which the library zero-fills, so dirty or exact-size external workspaces are never exercised.",
 ["include/tlapack/base/workspace.hpp"]+lap("geqrf","gehrd","unmq","larfb","multishift_qr"), [("WorkInfo min/max and sum","include/tlapack/base/workspace.hpp")])

prop("X03", "Views, slices, diagonals and reshapes alias exactly the intended elements",
 "A slice, row or column range, single row or column, diagonal, transpose view or reshape of a matrix or vector, of either storage order and any leading dimension or stride, nested to any depth, refers to exactly the elements its arguments name: reads through the view equal the parent's entries, writes through it change only them, and its reported dimensions are right. Reshape splits storage into two disjoint parts or raises an error.",
 ["inputs","histories","configurations"], "all shapes, leading dimensions, strides, ranges (including empty), and compositions of view operations",
 "Plugin tests use one or two shapes per operation; composition of views is never tested.",
 ["include/tlapack/plugins/legacyArray.hpp","include/tlapack/plugins/stdvector.hpp","include/tlapack/LegacyMatrix.hpp","include/tlapack/LegacyVector.hpp"], [("pointer arithmetic per layout","include/tlapack/plugins/legacyArray.hpp")])

prop("X04", "Legacy pointer API and C/CBLAS wrappers equal the template API",
 "Each pointer-based legacy routine and each C or CBLAS wrapper, for every layout, flag, leading dimension, positive or negative increment and problem size, performs the operation its reference (Netlib) counterpart performs, exactly when intermediates are representable, and touches no memory outside the described arrays. Invalid dimension, flag or leading-dimension arguments of the legacy API raise a domain error.",
 ["inputs","configurations"], "all routines of the legacy and C interfaces, layouts, flags, increments, leading dimensions, sizes",
 "The wrappers are only compiled, never tested: the BLAS++/LAPACK++ suites need downloads and are off.",
 ["src/tlapack_cwrappers.cpp","include/tlapack/legacy_api/blas.hpp","include/tlapack/legacy_api/lapack.hpp","include/tlapack.h.in","include/tlapack_cblas.h.in"], [("argument translation","src/tlapack_cwrappers.cpp")])

prop("X05", "Accuracy follows the precision of the scalar type",
 "Run with extended, quadruple or multiple-precision scalar types, the BLAS operations, norms, factorizations, eigenvalue, reordering and singular value drivers achieve errors proportional to that type's own working precision, with no hidden loss to a fixed precision; the machine-constant helpers (unit roundoff, safe minimum and maximum, sum-of-squares thresholds) have their defining properties for each type.",
 ["inputs","configurations"], "all scalar types meeting the documented requirements, all routines, random and structured inputs",
 "Tests cover mpreal only at its default 53-bit precision, so a constant fixed at double precision is invisible; quad tests are off.",
 ["include/tlapack/base/constants.hpp","include/tlapack/base/types.hpp","include/tlapack/plugins/mpreal.hpp","include/tlapack/plugins/gnuquad.hpp"]+lap("lahqr","svd_qr","larfg"), [("ulp/safe_min templates","include/tlapack/base/constants.hpp")])

prop("X06", "Results do not depend on how operands are stored",
 "For every routine, giving the same mathematical operands as column-major, row-major, padded or embedded submatrix, transposed view, strided vector, or a user-defined matrix class that meets the documented concepts, yields the same mathematical result to working precision, and storage outside the operands is never read into the result nor written.",
 ["inputs","configurations"], "all routines, storage layouts, leading dimensions, embeddings and conforming matrix classes",
 "Tests use tightly packed matrices of one layout for all operands of a call.",
 ["include/tlapack/base/arrayTraits.hpp","include/tlapack/base/utils.hpp","include/tlapack/plugins/legacyArray.hpp"], [("layout traits","include/tlapack/base/arrayTraits.hpp")])

prop("X07", "No routine performs an invalid memory access or undefined operation",
 "On every valid input - all sizes down to zero, all options, minimum workspaces, non-finite data - no routine reads or writes outside its operands and workspaces, depends on uninitialised memory, overflows an integer or otherwise executes undefined behaviour, and no internal assertion fails.",
 ["inputs","configurations"], "all routines, all valid inputs including degenerate sizes and non-finite values",
 "The suite is built without sanitizers and with sizes well away from the degenerate ones.",
 ["include/tlapack/lapack/*.hpp","include/tlapack/blas/*.hpp"], [("index arithmetic","include/tlapack")])

prop("X08", "Every iterative or recursive driver terminates on any input",
 "On any input, including matrices full of NaN, infinities, zeros, huge, tiny or denormal entries and any legal option values, every factorization, eigenvalue and singular value routine returns after a bounded amount of work; if its (finite) result is not converged it says so through its return code or by an exception. On generic finite inputs of ordinary scale it converges.",
 ["inputs","configurations"], "all drivers, all inputs including non-finite, all option settings",
 "Tests only feed finite random matrices on which the iterations converge quickly.",
 lap("lahqr","multishift_qr","lahqz","multishift_qz","steqr","svd_qr","laed4","laed6","larfg"), [("iteration limits", L+"lahqr.hpp")])

prop("X09", "Calls are deterministic, reentrant and free of hidden state",
 "A call's result is a function of its arguments only: repeating it, interleaving it with any other calls of different types and sizes, or running it at the same time as other calls on disjoint data in several threads gives bitwise the same result.",
 ["histories","schedules","configurations"], "all sequences and concurrent groups of calls on disjoint operands",
 "Tests make each call once, in one thread, in a fixed order.",
 ["include/tlapack/lapack/*.hpp","include/tlapack/blas/*.hpp","include/tlapack/base/*.hpp"], [("no static state","include/tlapack")])

CLAIMED = {}   # id -> dict(technique, level_note) ; filled below as checks are added
NOT_APPLICABLE = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "claims.py")) else None

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
              quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
              anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                           observe_at=p["observe"] or ["return values and output operands of the public routines"], hook_needed=None)))+"\n")
    checks = []
    for p in P:
        if p["id"] in CLAIMED:
            c = CLAIMED[p["id"]]
            checks.append(dict(property=p["id"],
              quick_cmd="python3 tools/run.py %s --tier quick" % p["id"],
              thorough_cmd="python3 tools/run.py %s --tier thorough" % p["id"],
              evidence_file="evidence/%s.json" % p["id"],
              technique=c.get("technique", "property-based testing: generated inputs against an explicit oracle, with shrinking"),
              level="exploration", level_note=c["level_note"]))
    na = [dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet"))
          for p in P if p["id"] not in CLAIMED]
    m = dict(version=1, setup_cmd="python3 tools/run.py --setup", checks=checks, not_applicable=na,
             notes="All checks are generated-input searches (choice-sequence property-based testing engine in pbt/pbt.hpp) "
                   "compiled from /repo's current headers. No hooks in /repo are needed.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    main()
