#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the file stays schema-shaped)."""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

p("C01","Vector and matrix arithmetic is the textbook operation for every storage",
 "Every arithmetic expression on vectors and matrices (sum, difference, negation, scalar scale/divide, dot, cross and outer-style products, matrix-vector and matrix-matrix products, diagonal products, compound assignment, comparison, mixing with Zeros/Ones/Identity) yields the mathematically defined value up to rounding. The value does not depend on whether an operand is statically sized, dynamically sized, row- or column-major, a slice or transpose of a larger object, or wrapped foreign memory, and operands other than the assigned one are unchanged. Scalars may be elements of the assigned object, and an assignment returns the object it changed.",
 ["inputs","programs","configurations"],
 "All element values, all sizes (including 0/1 and above the stack threshold), all combinations of storage kinds and layouts of the operands of each operator that the library accepts.",
 "The existing tests print a few fixed expressions of doubles; the operator set is a product of operand kinds x sizes x layouts that no fixed table covers, and templates never instantiated by a test are not even compiled.",
 ["TooN/internal/operators.hh","TooN/internal/objects.h","TooN/internal/vector.hh","TooN/internal/matrix.hh","TooN/internal/diagmatrix.h"],
 [("Lazy operator objects evaluated element by element into the destination","TooN/internal/operators.hh"),
  ("Generator objects (Zeros, Ones, Identity) with scale","TooN/internal/objects.h"),
  ("Diagonal matrix products","TooN/internal/diagmatrix.h")],
 observe=["value of the resulting object","bytes of the operands before and after"])

p("C02","Slices, transposes, rows, diagonals and wrapped memory are exact live views",
 "A view (row, column, sub-vector, sub-matrix, transpose, diagonal, vector-as-row/column/diagonal, wrapped foreign array, named element, any nesting of these) refers to exactly the elements its definition names. Reading through the view gives the current value of those elements, and writing through it changes those elements and no other memory; read-only views of const objects never modify anything.",
 ["inputs","programs","histories"],
 "All base sizes, all legal static and dynamic offsets/lengths, all nestings of view constructors, both storage orders, arbitrary foreign strides.",
 "Tests slice one fixed matrix with constant arguments and print it; they never vary strides and nesting or check that the neighbours of a written view are untouched.",
 ["TooN/internal/vbase.hh","TooN/internal/mbase.hh","TooN/internal/reference.hh","TooN/internal/vector.hh","TooN/internal/matrix.hh","TooN/named_elements.h"],
 [("Stride/offset arithmetic of slice classes","TooN/internal/vbase.hh, TooN/internal/mbase.hh"),
  ("Wrapping of user memory","TooN/internal/reference.hh"),
  ("Named element union","TooN/named_elements.h")],
 observe=["every cell of the backing buffer, including guard cells around it"])

p("C03","Ill-formed operations are stopped before they touch memory; legal ones never are",
 "An operation whose operand sizes disagree, a slice that leaves its parent, an index out of range (when bounds checking is enabled), a fill list with too few or too many values, or a wrong-size initializer list is rejected: at compile time when the sizes are known to the compiler, otherwise by terminating the program before any out-of-range element is read or written. A well-formed operation is never rejected.",
 ["inputs","programs","configurations"],
 "All pairs of static/dynamic/resizable sizes, all offsets and lengths including negative, zero and near-overflow values, every size-checked operator, slice, fill and initializer form.",
 "Tests contain two must-not-compile programs and no program that must abort; the accepting/rejecting boundary is a predicate over sizes that sampling two points does not determine.",
 ["TooN/internal/size_mismatch.hh","TooN/internal/slice_error.hh","TooN/internal/overfill_error.hh","TooN/internal/comma.hh","TooN/internal/debug.hh","TooN/internal/vector.hh","TooN/internal/matrix.hh"],
 [("Size agreement test, static and dynamic","TooN/internal/size_mismatch.hh"),
  ("Slice limits test","TooN/internal/slice_error.hh"),
  ("Fill counters","TooN/internal/overfill_error.hh, TooN/internal/comma.hh"),
  ("Bounds-checked indexing","TooN/internal/debug.hh")],
 observe=["exit status of a child process performing exactly one operation","sanitizer reports"])

p("C04","Owning vectors and matrices are independent values with sound lifetimes",
 "Through any sequence of constructions, copies, moves, swaps, assignments (including self-assignment and assignment from views of itself that select the same elements) and resizes, each owning vector or matrix holds exactly the values a plain array model holds. Growing a resizable vector keeps the existing elements, assignment to a resizable one takes the size of the source, storage is freed exactly once, and nothing outside the live storage is read or written.",
 ["histories","inputs"],
 "All finite histories over a pool of static (stack and heap-backed), dynamic and resizable objects, with sizes from 0 up.",
 "Tests swap pairs and resize one vector along one path; ownership errors depend on the interleaving of operations in a history.",
 ["TooN/internal/allocator.hh","TooN/internal/vector.hh","TooN/internal/matrix.hh"],
 [("Static, dynamic and resizable storage classes","TooN/internal/allocator.hh"),
  ("Copy/move constructors and assignment","TooN/internal/vector.hh, TooN/internal/matrix.hh")],
 observe=["element values against a std::vector model","address sanitizer reports","live heap bytes at end of history"])

p("C05","Every way of initialising an object sets every element to the stated value",
 "After construction or assignment from a comma-separated fill, an initializer list, makeVector, a data list, an array of values, wrapped memory, Zeros, Ones, Identity or a scaled identity, each element has precisely the value given for its row-major position, for statically and dynamically sized objects of either storage order. No element is left unset and values are converted, not reinterpreted, when precisions differ.",
 ["inputs","programs"],
 "All element values, sizes from 1 up, static and dynamic destinations of either layout, all element types.",
 "Tests print a handful of literals of one size; per-size generated code and single-row/column shapes are not exercised.",
 ["TooN/internal/comma.hh","TooN/internal/data.hh","TooN/internal/data_functions.hh","TooN/internal/make_vector.hh","TooN/internal/objects.h","TooN/internal/vector.hh","TooN/internal/matrix.hh"],
 [("Fill iteration","TooN/internal/comma.hh"),("Data lists","TooN/internal/data.hh, TooN/internal/data_functions.hh"),
  ("makeVector","TooN/internal/make_vector.hh"),("Zeros/Ones/Identity","TooN/internal/objects.h")],
 observe=["all elements of the destination after poisoning its storage"])

p("C06","Text written by the stream operators reads back to the same object",
 "Writing any vector, matrix or group element to a stream with enough digits and reading it back into an object of the same shape gives the same elements in the same positions. The output contains exactly the elements in row-major order, and reading consumes exactly that many numbers.",
 ["inputs"],
 "All finite element values (full double range, negative zero, denormals), all shapes and layouts, any field width/precision, several objects in one stream.",
 "Tests only write, and compare numerically with tolerance against one fixed text; no test reads anything back.",
 ["TooN/internal/operators.hh","TooN/so2.h","TooN/so3.h","TooN/se2.h","TooN/se3.h","TooN/sim2.h","TooN/sim3.h","TooN/sl.h"],
 [("Stream operators","TooN/internal/operators.hh"),("Group stream operators","TooN/s*.h")],
 observe=["bytes written","elements read back","stream position after reading"])

p("C07","Vector and matrix helper functions compute their documented quantities",
 "Norms (1, 2, infinity, squared), unit/normalize, project/unproject, trace, symmetrisation, cross product and its matrix, extrema with their positions, finiteness/NaN tests and matrix norms return the defined value for every argument, static or dynamic, vector or matrix, row- or column-wise. Positions returned for extrema index an element attaining the extremum.",
 ["inputs","configurations"],
 "All element values including ties, negatives, infinities and NaN where meaningful, all sizes from 1, all layouts and slices.",
 "Most of these functions are not called by any test, so they are not even instantiated by the test build.",
 ["TooN/helpers.h","TooN/TooN.h"],
 [("Free helper functions","TooN/helpers.h"),("Accumulators for extrema and sums","TooN/helpers.h (Internal::accumulate*)")],
 observe=["return value against an independent evaluation"])

p("C08","Matrix exponential, logarithm and square root invert and compose correctly",
 "exp of a square matrix equals the matrix exponential, sqrt squares back to its argument and log is a logarithm (exp of it gives the argument back) for every matrix with a principal root, to working accuracy relative to conditioning. The calls always return.",
 ["inputs"],
 "All square matrices of norm 0 to large for exp; matrices with spectrum away from the closed negative real axis for sqrt and log; all static and dynamic sizes.",
 "One test takes the root of symmetric eigen systems only; exp, log and the iterative sqrt have no test, and termination is a claim about all inputs.",
 ["TooN/helpers.h"],
 [("Scaling and squaring exponential","TooN/helpers.h exp"),("Product-form iteration","TooN/helpers.h sqrt"),("Inverse scaling logarithm","TooN/helpers.h log")],
 observe=["returned matrix against an extended-precision reference","completion of the call"])

p("C09","Gaussian elimination and Gauss-Jordan solve and invert any regular system",
 "For every non-singular system, Gaussian elimination with one or several right-hand sides returns the solution and Gauss-Jordan turns an augmented matrix into the inverse, with a residual of the order of rounding error for a pivoted method. Row order and scaling of the input do not matter, and inputs passed by const reference are unchanged.",
 ["inputs"],
 "All regular matrices (including zero leading entries, permuted, badly scaled), all sizes, vector and matrix right-hand sides, static and dynamic, float to long double.",
 "Tests solve a few hundred random well-conditioned systems of one type; pivoting errors only show for special patterns and non-square right-hand sides.",
 ["TooN/gaussian_elimination.h","TooN/gauss_jordan.h"],
 [("Partial pivoting elimination and back substitution","TooN/gaussian_elimination.h"),("In-place reduction","TooN/gauss_jordan.h")],
 observe=["normwise backward error of the returned solution"])

p("C10","determinant is the determinant",
 "The determinant of every square matrix equals the mathematical value to rounding error relative to the product of row norms, whichever algorithm is selected (closed form, elimination or LU) and for static and dynamic sizes. Exactly singular integer matrices give a value at rounding level, and swapping rows flips the sign.",
 ["inputs","configurations"],
 "All square matrices of all sizes (small closed-form, medium, above the size where the algorithm switches), all types, with and without the external LAPACK library (which limits the type to float and double).",
 "Tests compare a list of sizes on one random seed; sign errors depend on pivot patterns, and the dispatch by size and build option is sampled sparsely.",
 ["TooN/determinant.h","TooN/LU.h"],
 [("Closed forms for small sizes","TooN/determinant.h"),("Elimination with row exchange sign","TooN/determinant.h"),("LU diagonal product with permutation parity","TooN/LU.h")],
 observe=["returned value against an exact rational/extended-precision evaluation"])

p("C11","Both Cholesky classes factor, solve, invert and rank symmetric definite matrices",
 "For every symmetric positive definite matrix the built-in and the LAPACK Cholesky give factors that multiply back to the matrix, solutions with small residual, an inverse, a determinant, and correct Mahalanobis distances, reading the matrix consistently with symmetry. The built-in class does the same for symmetric indefinite matrices with regular leading minors, recomputation replaces the earlier state completely, and an indefinite matrix is reported through the rank.",
 ["inputs","histories"],
 "All symmetric matrices with regular leading minors (definite, indefinite, ill-conditioned), sizes 1 and up, static and dynamic, repeated compute calls on one object.",
 "Tests use two fixed matrices; residuals, reuse of an object and rank reporting are unchecked.",
 ["TooN/Cholesky.h","TooN/Lapack_Cholesky.h"],
 [("LDL^T factorisation","TooN/Cholesky.h"),("potrf/potrs wrappers","TooN/Lapack_Cholesky.h")],
 observe=["L, D, solutions, inverse, determinant, rank"])

p("C12","LU factors, solves, inverts and gives determinants for every regular matrix",
 "For every square matrix the LU object's packed factors with its pivots reproduce the matrix, its solutions for vector and matrix right-hand sides have small residual, and its inverse, determinant and info are consistent with the matrix. Static and dynamic objects and right-hand sides behave alike, and re-computing on an object replaces earlier state.",
 ["inputs","histories"],
 "All regular matrices of all sizes with arbitrary pivot orders; static and dynamic matrix right-hand sides; single and double precision.",
 "The only LU test prints one factorisation of one matrix.",
 ["TooN/LU.h","TooN/lapack.h"],
 [("getrf wrapper, row exchange and triangular solves","TooN/LU.h")],
 observe=["solutions, inverse, determinant, factors, info"])

p("C13","QR decompositions are orthogonal-times-triangular for every admissible matrix",
 "For every matrix of an admissible shape, both QR classes return an orthogonal Q and an upper triangular R whose product is the matrix (with the returned column permutation when pivoting is requested, in which case the diagonal of R is non-increasing in magnitude). This includes matrices with zero columns, already triangular matrices and rank-deficient matrices.",
 ["inputs"],
 "All matrices with the shape the class documents (at least as many columns as rows), any rank, static and dynamic.",
 "The test multiplies random dense full-rank matrices back; structured and rank-deficient inputs are measure zero under that sampling.",
 ["TooN/QR.h","TooN/QR_Lapack.h"],
 [("Householder reflections","TooN/QR.h"),("geqp3/orgqr wrappers","TooN/QR_Lapack.h")],
 observe=["Q, R, permutation"])

p("C14","LAPACK SVD: factors, pseudo-inverse, least squares, determinant and rank",
 "For every matrix, tall, square or wide, the SVD gives orthonormal singular vectors and non-negative descending singular values that multiply back to the matrix; back substitution and the pseudo-inverse give the minimum-norm least-squares result with singular values below the condition limit treated as zero. The reported determinant is the product of the singular values and the numeric rank is the number of them above the condition limit.",
 ["inputs","configurations"],
 "All shapes and ranks, static and dynamic sizes, float and double, vector and matrix right-hand sides, varying condition limits.",
 "No test uses the LAPACK SVD at all except indirectly; rank and wide shapes are untested.",
 ["TooN/SVD.h","TooN/lapack.h"],
 [("gesvd wrapper with in-place U or V^T","TooN/SVD.h"),("Truncated inverse singular values","TooN/SVD.h get_inv_diag")],
 observe=["U, diagonal, V^T, solutions, pseudo-inverse, rank, determinant"])

p("C15","Golub-Reinsch SVD satisfies the same contract without LAPACK",
 "For every matrix with at least as many rows as columns the built-in SVD returns factors that multiply back to the matrix, orthonormal V and column-orthonormal U, non-negative singular values, and correct rank, inverse and least-squares solutions; re-ordering makes the singular values monotone while preserving the product. The iteration always completes on finite input, including zero, rank-one, repeated-singular-value and badly scaled matrices.",
 ["inputs"],
 "All shapes M x N the class documents, any rank, with and without accumulation of U and V.",
 "The one test decomposes one 3x3 matrix.",
 ["TooN/GR_SVD.h"],
 [("Householder bidiagonalisation","TooN/GR_SVD.h"),("Implicit QR sweeps with deflation","TooN/GR_SVD.h")],
 observe=["U, diagonal, V, pseudo-inverse, rank"])

p("C16","Symmetric eigen-decomposition is orthonormal, sorted and reconstructs the matrix",
 "For every real symmetric matrix the returned eigenvalues are in ascending order, the eigenvector rows are orthonormal, and together they reconstruct the matrix; this includes repeated eigenvalues, diagonal and zero matrices, for the closed-form small sizes and the general size. Derived results (pseudo-inverse, solve, square root, inverse square root, determinant, definiteness tests) agree with the eigenvalues.",
 ["inputs","configurations"],
 "All symmetric matrices incl. clustered/repeated eigenvalues and any scale; sizes 1 up, static and dynamic, float and double.",
 "The test samples random matrices with a loose tolerance; special spectra take different branches in the closed-form code.",
 ["TooN/SymEigen.h"],
 [("Closed form 2x2 and 3x3","TooN/SymEigen.h ComputeSymEigen<2>, <3>"),("syev wrapper","TooN/SymEigen.h"),("Derived matrices","TooN/SymEigen.h")],
 observe=["eigenvalues, eigenvectors, derived matrices"])

p("C17","Weighted least squares accumulates exactly the normal equations and solves them",
 "After any sequence of adding priors, scalar or block measurements, sparse measurements, clears and merges of accumulators, the information matrix and vector equal the weighted sums of the measurements added, in any order, and the computed estimate satisfies those normal equations. Merging two accumulators equals accumulating all their measurements in one.",
 ["histories","inputs"],
 "All sequences of accumulator operations with arbitrary Jacobians and weights, static and dynamic parameter counts.",
 "No test uses this class; it is not instantiated in the test build.",
 ["TooN/wls.h"],
 [("Upper-triangle accumulation and later symmetrisation","TooN/wls.h"),("Decomposition-based solve","TooN/wls.h compute")],
 observe=["information matrix, vector, estimate"])

p("C18","Iterative re-weighting applies each robust weight exactly as documented",
 "Adding a measurement to the iteratively re-weighted solver with a robust function contributes the documented weight times the measurement's outer product and residual, and the reported residual is the total of the documented robust cost; the cost of a robust function is the integral of its weight times the residual, and its true scale, which weights the accumulated true information matrix, is the derivative of weight times residual. With unit weights the solver equals ordinary weighted least squares.",
 ["inputs","histories"],
 "All measurement sequences, residuals from zero to huge, all provided robust functions and their parameters.",
 "No test instantiates any of these classes.",
 ["TooN/irls.h","TooN/wls.h"],
 [("Robust functors","TooN/irls.h"),("Weighted accumulation","TooN/irls.h add_mJ")],
 observe=["information matrix, vector, residual, functor values"])

p("C19","SO2 and SO3 elements are always rotations and obey the group laws",
 "Every SO2/SO3 object produced through the public interface is orthonormal with determinant +1; exp equals the matrix exponential of the generators, ln is its principal inverse, multiplication composes, inverse undoes, the adjoint satisfies its defining identity, and the two-vector constructor maps one direction to the other. Reading an approximate rotation from a stream or a matrix gives a rotation close to it. Accuracy holds for angles near 0 and near pi.",
 ["inputs","histories"],
 "All rotation vectors including tiny, near pi and many turns; all long products of rotations; single and double precision.",
 "The test prints exp of one vector.",
 ["TooN/so2.h","TooN/so3.h"],
 [("Rodrigues formula with Taylor branches","TooN/so3.h exp"),("Branching logarithm","TooN/so3.h ln"),("Gram-Schmidt coerce","TooN/so2.h, TooN/so3.h coerce")],
 observe=["rotation matrix, logarithm, transformed vectors"])

p("C20","SE2 and SE3 behave as rigid motions",
 "Composition, inverse, exp and ln of SE2/SE3 agree with the corresponding homogeneous matrices and matrix exponentials of the generators, and transforming points, homogeneous vectors and matrices from the left or right equals multiplying by that matrix. Adjoint and transposed-inverse-adjoint satisfy their defining identities, and generator fields equal generators times the point. Reading an approximate transformation gives a rigid one close to it.",
 ["inputs","histories"],
 "All rotations (tiny to near pi) and translations, long products, self-multiplication, all operand kinds and precisions.",
 "No test covers SE2 or SE3 exp/ln/adjoint.",
 ["TooN/se2.h","TooN/se3.h"],
 [("exp/ln with half-angle translation","TooN/se2.h, TooN/se3.h"),("Left and right products as lazy operators","TooN/se2.h, TooN/se3.h"),("adjoint/trinvadjoint","TooN/se2.h, TooN/se3.h")],
 observe=["rotation, translation, logarithm, products"])

p("C21","SIM2 and SIM3 behave as similarity transforms",
 "Composition, inverse, exp and ln of SIM2/SIM3 agree with the corresponding scaled homogeneous matrices and matrix exponentials of the generators over all scales and angles, including both near zero, and transforming points, homogeneous vectors and matrices from either side equals multiplying by that matrix. Adjoint and transposed-inverse-adjoint satisfy their defining identities.",
 ["inputs","histories"],
 "All rotation angles, translations and log-scales, including each of angle and log-scale tiny, zero or moderate; long products.",
 "The test covers SIM3 generators and one composition at generic random points; SIM2 and small-parameter branches are never run.",
 ["TooN/sim2.h","TooN/sim3.h"],
 [("Rodrigues-like coefficients with four branches","TooN/sim3.h compute_rodrigues_coefficients_sim3"),("Left/right products","TooN/sim2.h, TooN/sim3.h")],
 observe=["rotation, scale, translation, logarithm, products"])

p("C22","SL elements have unit determinant and obey the group laws",
 "Every SL(N) element has determinant one; exp equals the matrix exponential of the weighted generators (which are trace free and linearly independent), ln inverts exp near the identity, and product, in-place product, inverse and action on vectors and matrices agree with the underlying matrices, for every N. A matrix read or given is scaled to determinant one.",
 ["inputs"],
 "All Lie algebra vectors of moderate norm and all matrices of positive determinant, N from 2 up.",
 "No test uses SL.",
 ["TooN/sl.h"],
 [("Generator indexing","TooN/sl.h generator"),("exp/ln via matrix functions","TooN/sl.h"),("Determinant normalisation","TooN/sl.h coerce")],
 observe=["matrix, logarithm, generators"])

p("C23","Downhill simplex never loses its best point and reports a consistent simplex",
 "At every iteration the best stored value never increases, every stored value is the function's value at its stored vertex, each step is one of the documented moves, and iteration stops exactly when the documented span criterion holds. On convex quadratic and other benign functions it terminates near the minimum.",
 ["inputs","histories"],
 "All functions, starting points, spreads, dimensions (static and dynamic) and restarts; all iteration counts.",
 "The test only prints the end point for one function.",
 ["TooN/optimization/downhill_simplex.h"],
 [("Reflect/expand/contract/shrink step","TooN/optimization/downhill_simplex.h find_next_point")],
 observe=["simplex and values after each step","every function evaluation"])

p("C24","Line searches and conjugate gradient only go downhill and keep their brackets",
 "Golden section and Brent searches evaluate the function only inside the given bracket, respect the iteration limit, and return an evaluated point whose value is no worse than any value seen at the start, converging to the minimum of a unimodal function within tolerance. Conjugate gradient never increases its objective, keeps position and value consistent, and converges on convex problems, without ever terminating the program on a function that has a minimum.",
 ["inputs","histories"],
 "All bracketed functions, tolerances and iteration limits; all differentiable objectives with a minimum, including ones undefined (NaN) in part of the domain.",
 "No test uses any of these routines; one header does not even compile in the test build.",
 ["TooN/optimization/brent.h","TooN/optimization/golden_section.h","TooN/optimization/conjugate_gradient.h"],
 [("Bracketing and parabolic steps","TooN/optimization/brent.h"),("Golden section updates","TooN/optimization/golden_section.h"),("Forward bracketing and Polak-Ribiere update","TooN/optimization/conjugate_gradient.h")],
 observe=["every function evaluation (argument, value)","returned point and value","state after each iteration"])

p("C25","Numerical gradients and Hessians match the analytic derivatives",
 "For every smooth function the numerical gradient, Hessian and their error-reporting variants agree with the analytic derivative to high relative accuracy and the reported error estimates have the right shape and scale; the Hessian is symmetric. The functor is evaluated with only the documented coordinates perturbed. Evaluations that are undefined (NaN) because a step crosses the boundary of the domain do not spoil the result.",
 ["inputs"],
 "All smooth functions and points of moderate scale, static and dynamic dimension, float and double.",
 "Only used inside another test with loose tolerance; Hessians are never computed.",
 ["TooN/functions/derivatives.h"],
 [("Ridders extrapolation","TooN/functions/derivatives.h extrapolate_to_zero"),("Central difference functors","TooN/functions/derivatives.h")],
 observe=["returned derivatives and errors","every function evaluation point"])

p("C26","Mixed-precision, integer and complex arithmetic follows C++ promotion",
 "An operation on elements of different types gives a result whose element type is the type C++ gives to that operation on two such scalars and whose values equal the scalar computation in that type, for float, double, long double, integers and std::complex. A complex vector made from separate arrays of real and imaginary parts always shows the current values of both.",
 ["inputs","programs"],
 "All pairs of real element types and the pairs of complex types C++ itself can combine, for every binary operator; all values within range.",
 "One test prints a complex fill; type combinations are not sampled.",
 ["TooN/TooN.h","TooN/internal/operators.hh","TooN/internal/planar_complex.hh"],
 [("Result type computation","TooN/internal/operators.hh, TooN/TooN.h"),("Planar complex storage","TooN/internal/planar_complex.hh")],
 observe=["static type and value of results"])

p("C27","Results do not depend on debug options or on uninitialised memory",
 "Any program that is legal gives identical results with every combination of the library's checking and initialisation options (bounds checks on or off, size/slice/fill checks disabled, storage initialised with values, NaN or random data or not at all), with and without optimisation. In particular no result is computed from storage nobody wrote.",
 ["configurations","inputs"],
 "All legal programs over the library's public operations; all documented option macros.",
 "The suite is built with one option set only, and stale zeroes in fresh memory hide reads of unwritten storage.",
 ["TooN/TooN.h","TooN/internal/debug.hh","TooN/internal/allocator.hh","TooN/internal/size_mismatch.hh","TooN/internal/slice_error.hh"],
 [("Debug initialisation of storage","TooN/internal/debug.hh, TooN/internal/allocator.hh"),("Removable checks","TooN/internal/*_error.hh, size_mismatch.hh")],
 observe=["digest of all result bits per configuration","memory sanitizer / valgrind reports"])

p("C28","Distinct objects can be used from many threads at once",
 "Threads that operate on their own vectors, matrices, decompositions, groups and optimisers, sharing at most read-only operands, run without data races and get the same results as when run one after another.",
 ["schedules","inputs"],
 "All interleavings of threads running any library operations on distinct objects, including first use of any function-local constants.",
 "No test starts a thread; hidden shared state is invisible to single-threaded runs.",
 ["TooN/so3.h","TooN/se3.h","TooN/internal/allocator.hh","TooN/internal/debug.hh","TooN/helpers.h"],
 [("Absence of mutable globals; function-local constants with guarded initialisation","TooN/so3.h, TooN/se2.h, TooN/se3.h, TooN/sim3.h")],
 observe=["thread sanitizer reports","per-thread result digests"])

p("C29","Headers, options and translation units combine freely",
 "Every public header can be included on its own, in any order and in any number of translation units of one program, by either compiler and any later language version, and does what it does with all headers included. Translation units compiled with different debugging options (bounds checks, initialisation, disabled checks) can be mixed in one program and exchange objects in every way: they agree on layouts, values, ownership and exceptions. Objects at namespace scope may be built from the library's constants and functions whatever the initialisation order. The default precision macro changes the type of every class that names no precision, and nothing else.",
 ["programs","configurations","inputs"],
 "All orders and subsets of the public headers; all combinations of the documented option macros over the units of a program; all histories of exchanging objects between them.",
 "Every test is one translation unit, including one or two headers in one order with one set of options.",
 ["TooN/TooN.h","TooN/lapack.h","TooN/LU.h","TooN/determinant.h","TooN/internal/allocator.hh","TooN/internal/debug.hh","TooN/internal/objects.h"],
 [("Include order of mutually dependent headers","TooN/TooN.h, TooN/determinant.h, TooN/LU.h, TooN/lapack.h"),("Option macros that leave layouts alone","TooN/internal/debug.hh, TooN/internal/allocator.hh, TooN/internal/vbase.hh"),("Constants usable before dynamic initialisation","TooN/internal/objects.h"),("Default precision","TooN/TooN.h DefaultPrecision")],
 observe=["compiler and linker verdicts","results of the same program in every unit","layouts","values of every object after each exchange","ASan ODR and initialisation-order reports"])

p("C30","Automatic differentiation through the library gives the derivatives of its functions",
 "With the automatic differentiation types supported by functions/fadbad.h as element type, of fixed or run-time number of derivatives, arithmetic, norms, the direct solvers and decompositions, least squares, matrix logarithms and the transformation groups compile, give the values they give for plain numbers, and give derivatives equal to the derivatives of those values, also where values or multipliers are exactly zero. The helper functions that make vectors and transformations with derivatives start at the derivative index asked for, the left perturbations are those of the exponential map, and values, derivatives and Jacobians are read back with the right shape for statically and dynamically sized objects.",
 ["inputs","programs"],
 "All smooth functions built from the supported operations, all points (including zeros and identities), all start indices and derivative counts, static and dynamic sizes, float and double.",
 "No test includes the header; a derivative is lost by any shortcut that looks only at the value, which no test of values can see.",
 ["TooN/functions/fadbad.h","TooN/gaussian_elimination.h","TooN/Cholesky.h","TooN/wls.h","TooN/so3.h","TooN/se3.h","TooN/se2.h","TooN/helpers.h"],
 [("Making and reading vectors with derivatives","TooN/functions/fadbad.h make_fad_vector, get_value, get_derivative, get_jacobian"),("Left perturbations of groups","TooN/functions/fadbad.h make_fad_so3, make_left_fad_se3 and others"),("Generic algorithms without value shortcuts","TooN/gaussian_elimination.h, TooN/Cholesky.h, TooN/so3.h")],
 observe=["values and every derivative of results","shape of Jacobians"])

p("C31","Algorithms that only add, multiply and divide are exact over any field",
 "Element types supplied by the user need only be declared a field. Vector and matrix arithmetic, views, streams, Gaussian elimination, Gauss-Jordan inversion, determinants, the square-root-free Cholesky decomposition and weighted least squares compile for them in every storage and give results that satisfy their defining equations exactly when the arithmetic of the type is exact: nothing is computed through a built-in floating-point type and no element is treated as zero unless it is zero. Products keep the order of their operands, so elements of arithmetic need not even commute.",
 ["inputs","programs"],
 "All regular systems over exact fields (rationals, integers modulo a large prime), arithmetic also over quaternions, all storages, sizes from 1 up, static and dynamic, with zero and repeated pivots.",
 "Tests only instantiate built-in types, where a detour through double or a comparison with an epsilon is invisible within the tolerance.",
 ["TooN/TooN.h","TooN/internal/operators.hh","TooN/gaussian_elimination.h","TooN/gauss_jordan.h","TooN/determinant.h","TooN/Cholesky.h","TooN/wls.h"],
 [("Declaring user types as fields","TooN/TooN.h IsField, TooN/internal/operators.hh Field"),("Elimination algorithms","TooN/gaussian_elimination.h, TooN/gauss_jordan.h, TooN/determinant.h"),("Square-root-free factorisation","TooN/Cholesky.h")],
 observe=["exact equality of both sides of the defining equations"])

p("C32","Storage and operations cost no more than documented",
 "A statically sized vector or matrix of at most max_bytes_on_stack bytes is exactly its elements: no metadata and no padding, contiguous and in the order of its layout, also in arrays; larger ones keep their elements on the heap and behave the same. No operation on small static objects (arithmetic, views, direct solvers, Cholesky, least squares, transformation groups) uses the heap. Views of any kind neither allocate nor create, copy or move elements. Constructing an object from an expression allocates once, exactly its elements, without temporaries; assignment to existing storage and compound assignment of dynamic objects allocate nothing; moving and swapping vectors transfers storage. Resizable vectors grow with the amortised cost of std::vector and shrink and refill without reallocating. The number of element operations stays within a small factor of the textbook algorithm.",
 ["inputs","programs"],
 "All sizes on both sides of the stack limit, all element types, static, dynamic and resizable storage, row- and column-major, every listed operation on all operands.",
 "Costs are invisible in results: a stray temporary, a copy in a view or a heap fallback passes every test that compares values.",
 ["TooN/internal/allocator.hh","TooN/internal/vbase.hh","TooN/internal/mbase.hh","TooN/internal/operators.hh","TooN/internal/diagmatrix.h","TooN/Cholesky.h","doc/documentation.h"],
 [("Choice between stack and heap","TooN/internal/allocator.hh StackOrHeap"),("Results built in place","TooN/internal/operators.hh, TooN/internal/vector.hh Operator constructors"),("Views hold a pointer","TooN/internal/allocator.hh VectorSlice, MatrixSlice; TooN/internal/mbase.hh"),("Resizable storage","TooN/internal/allocator.hh VectorAlloc<Resizable>")],
 observe=["sizeof and element addresses","every heap allocation with its size","constructions, copies, assignments and arithmetic operations of a counting element type"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
