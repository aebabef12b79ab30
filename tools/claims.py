# Claimed checks: id -> technique and what limits the strength of the verdict. exec'd by registry.py.
PBT = "property-based testing: seeded choice-sequence generators, "
def claim(pid, oracle, note):
    CLAIMED[pid] = dict(technique=PBT + oracle + "; failures shrunk to a minimal replay file", level_note=note)

claim("B01", "exact integer-valued reference model (bitwise comparison) with guarded storage",
      "Sampled lengths up to 200, increments up to 5, both directions, four scalar types plus real/complex and float/double mixes.")
claim("B02", "reference search with exactly representable magnitudes, NaN/Inf planted inside and outside the referenced part",
      "Sampled vectors up to length 100 and matrices up to 9x9; magnitudes built so that ties and overflow are exact.")
claim("B03", "exact integer-valued reference model with NaN in unreferenced parts and guarded storage",
      "Sampled shapes up to 45 with exactly representable data; rounding behaviour on general data is covered by the factorization checks.")
claim("B04", "exact reference product and round trip, plus componentwise backward error in wider precision",
      "Sampled shapes up to 45; power-of-two diagonals for the exact part.")
claim("B05", "exact integer-valued reference model with NaN in unreferenced parts and guarded storage",
      "Sampled shapes up to 45 with exactly representable data, mixed layouts and real/complex mixes.")
claim("B06", "NaN/Inf planted at generated positions and compared with the dependency pattern of the operation; strong-zero arithmetic table",
      "Sampled shapes up to 7x7 per operation, four scalar types.")
claim("B07", "quadruple-precision reference over the whole exponent range including subnormals",
      "Sampled exponents and lengths up to 200, float and double based types; tolerance 4-16 eps plus a few subnormals, normwise for complex results.")
claim("B08", "quadruple-precision reference for generated rotations over the whole exponent range; one-rotation-at-a-time reference model for sequences (bitwise on exact rotations)",
      "Sampled pairs over all exponents; matrices up to 17x17 and long/thin ones up to 530 (several 256-column blocks).")
claim("B09", "quadruple-precision reference over the whole exponent range (exact equality on integers), NaN/Inf junk in the unreferenced part",
      "Sampled shapes up to 45, every norm, kind, triangle, diagonal kind and layout.")
claim("B10", "entry-by-entry reference model with guarded storage; sorted-permutation and seed-determinism oracles; moments of the random numbers at 8 sigma",
      "Sampled shapes up to 45, sort lengths up to 150, random vectors up to 2000.")
claim("F01", "quadruple-precision reference for generated reflectors over the whole exponent range; explicit one-by-one product of reflectors as reference model (bitwise on integers, wide residual otherwise)",
      "Sampled orders up to 120 (generation) and 40 (blocks up to 20 reflectors); norms above a quarter of the overflow threshold are out of scope.")
claim("F02", "product of the stored reflectors in wider arithmetic as oracle, column- or row-wise backward error, NaN-filled workspaces of the queried size; comparison of all variants on well-conditioned matrices",
      "Sampled shapes up to 110, block sizes 1..32, four scalar types; trge_qr2 included.")
claim("F03", "generated reflectors, reference product in wider arithmetic; explicit generation and implicit multiplication compared with the same reference",
      "Sampled orders up to 110, block sizes 1..32, four scalar types, both layouts.")
claim("F04", "wide-precision backward error of L*U against the row-permuted original, exact dyadic matrices with a prescribed pivot order, agreement of all variants",
      "Sampled shapes up to 60 (solve and factor), block sizes 1..32, four scalar types, both layouts, singular inputs with a prescribed first zero pivot.")
claim("F05", "wide-precision residual of the inverse, prescribed first zero diagonal entry for the singular cases, both with internal error checks throwing and with codes only",
      "Sampled orders up to 60, every variant and triangle, four scalar types, both layouts.")
claim("F06", "wide-precision componentwise backward error, exact dyadic factors compared bitwise, prescribed first failing minor in every position; throwing and return-code builds",
      "Sampled orders up to 110, every variant, block size, triangle and bandwidth, four scalar types, both layouts; near-singular matrices are only held to the residual of the part that was factored.")
claim("F07", "explicit product of the referenced triangles as reference model (bitwise on integers, componentwise in wider precision otherwise), NaN in unreferenced parts",
      "Sampled orders up to 110, every flag, four scalar types, mixed layouts and workspace precisions; trmm_blocked_mixed only in the combination it implements.")
claim("F08", "normal-equation gradient of the regularized objective evaluated in wider precision",
      "Sampled problems up to 65x50 with up to 4 right-hand sides, lambda and data over most of the exponent range, all three methods and the driver; unregularized problems are well conditioned.")
claim("F09", "reconstruction from the documented storage (interchanges, unit-triangular strips, 1-by-1 and 2-by-2 blocks) in wider precision, componentwise against the same product of absolute values; pivot pairing and zero blocks checked against the returned info",
      "Sampled orders up to 110, block sizes 1..32, both triangles and symmetries, four scalar types, both layouts, zero/tiny diagonals, scales over the exponent range; a 2-by-2 block whose off-diagonal entry is subnormal is not judged.")
claim("E01", "wide-precision residual of Q H Q^H against the input and departure of Q from unitarity; generated and implicitly applied Q compared; bitwise comparison outside the active block",
      "Sampled orders up to 110, active ranges, block sizes 1..32 and crossovers, four scalar types, both layouts.")
claim("E02", "wide-precision residual of Q B P^H against the input and departure of the factors from unitarity",
      "Sampled shapes up to 60, block sizes 1..32, every documented size of the generated factors, four scalar types, both layouts.")
claim("E03", "Sturm counts in wider precision (every singular value to high relative accuracy), wide-precision residual and unitarity of the factors, values compared across want-vector flags",
      "Sampled shapes up to 60, bidiagonal matrices up to order 40 with graded, clustered, zero and widely spread entries, four scalar types, both layouts; 2-by-2 kernels over the exponent range.")
claim("E04", "Sturm counts and wide-precision residuals as oracle for the tridiagonal QR, secular equation solved by wide-precision bisection, 2-by-2 kernels in quadruple precision",
      "Sampled orders up to 60, scaled over most of the exponent range, with zero couplings, graded, glued and clustered spectra; secular equations as they come out of deflation.")
claim("E05", "wide-precision residual and departure from unitarity of the Schur form, shape of the quasi-triangular factor, eigenvalues compared with the diagonal blocks; kernels against direct algebraic relations",
      "Sampled orders up to 150, shift counts, window sizes, minimum sizes, active ranges and special structures (cyclic, companion, defective, graded, constant), both QR algorithms, four scalar types; a reported failure to converge is accepted on exactly defective matrices only.")
claim("E06", "wide-precision residual of Q S Q^H, standardized block structure, list model of block positions over generated move histories, direct Sylvester residual",
      "Sampled orders up to about 20 and histories of up to 4 moves, separated, equal, nearly equal, graded and weakly coupled blocks, scaled; four scalar types, both layouts. lasy2 is specified for the sizes it implements (1x1 and 2x2).")
claim("E07", "wide-precision residual of both matrices and departure from unitarity; Gram-matrix relations when one factor is not requested; rotations re-applied one by one for the RQ kernel",
      "Sampled orders up to 110, active ranges, block sizes 1..32, singular, nilpotent, zero and graded triangular factors, four scalar types, both layouts; the RQ kernel from order 1.")
claim("E08", "wide-precision residual of both matrices against Q, Z and their departure from unitarity, shape and normalization of the form, backward error of every (alpha, beta) pair and the ratio of determinants; kernels against direct algebraic relations",
      "Sampled orders up to 110, shift counts, window and minimum sizes, active ranges, singular, graded, nilpotent and structured pencils, four scalar types; both factors within about 2^200 (double) or 2^24 (single) of 1; a reported failure is accepted on structured or singular pencils.")
claim("E09", "wide-precision residual of both matrices and departure from unitarity, standardized block structure, exchanged eigenvalues compared through the coefficients of the block determinants, list model of block positions over generated move histories",
      "Sampled orders up to about 20 and histories of up to 4 moves; separated, equal, nearly equal, infinite, zero, graded and weakly coupled eigenvalues; four scalar types, both layouts.")
claim("E10", "wide-precision eigen-residual of every returned vector (scaled first, so that overflow is visible), triangular structure, selection model, guard columns, exact-size dirty workspaces; quadruple-precision bounds for the overflow-protection kernels",
      "Sampled orders up to about 90; separated, equal, nearly equal, graded eigenvalues, couplings up to 2^250 (2^30 single), unbalanced blocks, top exponents up to 2^1000 (2^110); level-2 and blocked with block sizes 1..64; four scalar types, both layouts.")
claim("X01", "each call is generated valid or with exactly one argument made invalid; std::domain_error and bitwise unchanged operands are required for the invalid ones, no domain_error and intact guards for the valid ones",
      "Routines that state argument checks (all of BLAS, about 70 LAPACK-level routines, drivers and _work variants); orders 0..10 (about 20 for the QR algorithm); an operand changed before the rejection, an accepted bad call and a rejected valid call are all reported. Calls on empty operands that return before validation are not judged.")
claim("X02", "the same call made twice, self-allocating and with a caller's workspace of exactly the queried size filled with NaN, infinity or huge values, compared bitwise; guard elements around the workspace; set algebra of the WorkInfo combinators",
      "All routines with a workspace query; workspaces presented exact, larger, flattened or strided (a strided one may be refused, never misused); orders up to about 60 (120 for the QR algorithm), four scalar types, both layouts.")
claim("X03", "address model: a view is the list of element addresses that index arithmetic on its parent gives; the walk compares every view of a generated composition with it and writes through the view",
      "Compositions up to depth 4 for the library's arrays (all index types, both directions of vectors) and 3 for Eigen matrices, blocks and maps; shapes up to 6x6 with any leading dimension or stride.")
claim("X04", "the operation written out on small-integer data (exact, compared bitwise over the whole storage image with guard values, const operands in write-protected pages) for the pointer BLAS with two index types, the C wrappers and the CBLAS wrappers; the pointer LAPACK routines against the template routines and element formulas",
      "Dimensions 0..9 for BLAS and up to 40 for LAPACK routines; every layout, flag, increment sign and leading-dimension padding; invalid arguments of the pointer API. rotmg against the template routine.")
claim("X05", "residuals and departure from unitarity measured in units of each scalar type's own roundoff (long double, __float128, mpreal with 256 bits, 16-bit half and bfloat16), inputs carrying all digits of the type; machine constants against their definitions",
      "BLAS, QR family, LU, Cholesky, triangular routines, norms, reflectors, rotations and 2-by-2 kernels for all five types; Hessenberg, Schur, eigenvectors, reordering, Hermitian, indefinite factorization, regularized least squares, singular value, secular equation and generalized Schur (single and multishift) for the three wide types, real and complex; orders up to 22.")
claim("X06", "differential: every routine run on the same operands in column-major, row-major, padded, backward-strided, Eigen (matrix, block), int-indexed and scattered user-class storage, results compared with the column-major ones; canaries in all storage outside the operands",
      "BLAS, QR family, LU, Cholesky, triangular, norms and auxiliaries, Hessenberg, Schur, Hermitian, bidiagonal, singular value and generalized Schur routines; orders up to about 24; double and complex<float>; Eigen storage real only (the plugin does not compile for complex with the installed Eigen).")
claim("X07", "AddressSanitizer, UndefinedBehaviorSanitizer (with float-cast-overflow), container assertions and the library's own assertions as oracle over exact-size operands; valgrind memcheck over operands whose freshly created memory is marked undefined",
      "The generated calls of the other properties (32 harnesses, all routine families) replayed under sanitizers, most of them also with non-finite and extreme data; four scalar types, both layouts; memcheck on the user-class matrices of X06. Numerical results are not judged here.")
claim("X08", "CPU-time bound per call (several hundred times the largest observed) and a hang limit per case; on success the requested form is checked for convergence (finite results only), on generic finite data success is required",
      "QR, QZ, tridiagonal QR and bidiagonal QR iterations with arbitrary legal option values, singular value and least squares drivers, all factorizations and recursive products from order zero, rescaling kernels and the secular equation solvers; generic, scaled over the whole exponent range, extreme, structured, and NaN/infinity-laden data; orders up to 30 (70 for factorizations). rotmg is outside (it is not a driver; like the reference BLAS it does not end for infinite d1).")
claim("X09", "bitwise comparison of a call's complete result (all operands, return value, exception text) with its first result: in generated histories with soiled stack and heap between calls, and while other calls run in other threads; ThreadSanitizer; floating-point control state",
      "42 call chains covering all routine families, four scalar types, orders up to 24; histories of 2 to 6 jobs and up to 18 calls including rejected calls and NaN data; 2 to 4 threads repeating their job, half of the time the same routine on different data.")
