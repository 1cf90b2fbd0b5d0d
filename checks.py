"""Which workloads decide which property, and what each run has to have observed."""
import os, subprocess, json, re, shutil, glob
import run
from run import Undecided

ASSUME = ["gcc/clang sanitizer runtimes and the system LAPACK/BLAS behave as documented",
          "the extended-precision reference in harness/ref.hpp is correct (it shares no code with TooN)"]

def prog(src, *variants, **kw):
    out = []
    for i, v in enumerate(variants):
        if isinstance(v, tuple): v, share = v
        else: share = 1.0
        d = dict(src=src, variant=v, share=share, id=len(out)); d.update(kw); out.append(d)
    return out

SPEC = {}
def spec(prop, programs, rule, require=(), extra=None, assume=(), technique=None, note=None):
    SPEC[prop] = dict(technique=technique, note=note, programs=programs, rule=rule, require=list(require), extra=extra, assume=list(assume))

spec("C09", prog("c09_solve.cc", "san", "rel"),
     "Random regular systems: dense, prescribed condition number, permuted triangular, zero/tiny pivots, integer, scaled; sizes 1-25, static and dynamic, float/double/long double, 1-8 right-hand sides. Distinct = distinct coefficient matrices.",
     ["ge/vec", "ge/vec_dyn", "ge/mat", "ge/mat_dyn", "gj/solution"])

spec("C10", prog("c10_det.cc", "san", "rel", "nolapack"),
     "Square matrices: dense, permutation, triangular, integer (exact value by Bareiss), repeated rows, zero diagonals, scaled; sizes 1-12 and 33-37 (the size where the algorithm switches); static, half static, dynamic, transposed, sliced. Distinct = distinct matrices.",
     ["det/auto", "det/elimination", "det/lu", "det/auto_large", "det/lu_large", "det/auto_float", "det/elimination_longdouble", "det/row_swap_sign"])

spec("C11", prog("c11_chol.cc", "san", "rel", "nolapack"),
     "Symmetric matrices built as L D L^T (definite, indefinite with regular leading minors, ill-conditioned, scaled, sparse, integer, Gram), recomputation sequences on one object, exact zero pivots, indefinite input to the LAPACK class; sizes 1-16. Distinct = distinct matrices.",
     ["ldl/spd/reconstruct", "ldl/indefinite/reconstruct", "ldl/spd/recompute_reconstruct", "ldl/indefinite/solve_matrix", "ldl/rank_deficient", "lapack/inverse", "lapack/recompute_solve_vector", "lapack/rank_indefinite", "ldl/float/mahalanobis"])
spec("C12", prog("c12_lu.cc", "san", "rel"),
     "Regular matrices with arbitrary pivot orders (permuted triangular, zero diagonals, prescribed condition), recomputation, transposed and column-major input, singular input; vector, static and dynamic matrix right-hand sides; every query repeated after get_inverse. Distinct = distinct matrices.",
     ["lu/packed_factors", "lu/solve_matrix_dynamic", "lu/dyn_solve_matrix_dynamic", "lu/recompute_determinant", "lu/float_inverse", "lu/info_singular"])
spec("C13", prog("c13_qr.cc", "san", "rel"),
     "Matrices with at least as many columns as rows: dense, triangular, diagonal, permutation, zero columns, rank one, zero, badly scaled, nearly axis aligned; with and without column pivoting. Distinct = distinct matrices.",
     ["qr/Q_orthogonal", "qr/dyn_reconstruct", "qrl/pivot_reconstruct", "qrl/dyn_pivot_diagonal_order", "qr/float_Q_orthogonal", "qr/longdouble_reconstruct"])

spec("C14", prog("c14_svd.cc", "san", "rel"),
     "Tall, square and wide matrices of any rank (prescribed and repeated singular values, zero, rank one, triangular, integer, scaled); static, half static, dynamic, transposed and column-major input; recomputation; condition limits placed between singular values. Distinct = distinct matrices.",
     ["svd/reconstruct", "svd/tall_pinv", "svd/wide_solve_vector", "svd/dyn_rank", "svd/dyn_recompute_reconstruct", "svd/float_solve_matrix", "svd/mixed_pinv"])
spec("C15", prog("c15_grsvd.cc", "san", "rel"),
     "Square and tall matrices of any rank (zero, all ones, rank one, shift, bidiagonal, repeated singular values, scaled), float and double, with and without accumulation of U and V, before and after reorder(). Distinct = distinct matrices.",
     ["gr/reconstruct", "gr/tall_reordered_solve_vector", "gr/tall_pinv", "gr/no_U_values", "gr/float_reordered_descending"])

spec("C16", prog("c16_symeigen.cc", "san", "rel"),
     "Symmetric matrices: dense, diagonal, zero, multiples of the identity, repeated and clustered eigenvalues, integer, rank one, scaled 1e-9..1e9, nearly diagonal; static 1,2,3,4,7, dynamic 1-12, float and double; recomputation, slices, column-major. Distinct = distinct matrices.",
     ["sym2/reconstruct", "sym3/orthonormal", "sym3/reconstruct", "symN/dyn_pinv", "symN/dyn_isqrtm", "sym/float_reconstruct", "sym3/recompute_values"])

spec("C17", prog("c17_wls.cc", "san", "rel"),
     "Histories of scalar, vector and matrix priors, scalar, block and sparse measurements (static and dynamic, sliced, mixed precision), merges (self-merge included), clears, copies and intermediate computes over one to three accumulators, with Cholesky, SVD and eigen decompositions in float, double and long double. Distinct = distinct operation histories.",
     ["wls/information", "wls/dyn_information", "wls/merge_information", "wls/clear_information_zero", "wls/normal_equations", "wls/dyn_estimate", "wls/svd_estimate", "wls/eigen_estimate", "wls/float_vector"])

spec("C18", prog("c18_irls.cc", "san", "rel"),
     "The four robust functions over residuals 0, tiny, ordinary, huge and scales 1e-2..1e2 (float and double); histories of measurements, merges (self-merge included), priors, clears and computes over IRLS with each function and with a recording user-supplied one, static and dynamic. Distinct = distinct residuals and measurement sequences.",
     ["robustI/true_scale", "robustII/true_scale", "robustII/objective", "robustIII/weight", "linear/objective", "irls/I_information", "irls/II_dyn_true_information", "irls/lin_equals_wls", "irls/user_evaluations", "irls/I_merge_residual", "irls/I_float_vector"])

spec("C19", prog("c19_so.cc", "san", "rel"),
     "Rotation vectors of angle 0, 1e-14..1e-1, around 1e-3, multiples of pi/4, pi-1e-12..pi and beyond 2 pi, about coordinate, diagonal and random axes; products, long products, inverses, actions on static/dynamic vectors and matrices; perturbed matrices coerced and read from text; pairs of vectors parallel, nearly parallel, orthogonal, nearly opposite and of different length; float, double, mixed. Distinct = distinct angles/axes/vector pairs.",
     ["so3/exp", "so3/exp_ln", "so3/ln_exp", "so3/product_orthonormal", "so3/adjoint", "so3/long_product_orthonormal", "so3/two_vectors_maps", "so3/two_vectors_axis", "so3/coerce_near", "so3/read_near", "so2/read_near", "so2/ln_exp", "so2/coerce_orthonormal", "so3/float_exp", "mixed/so3_product"])

spec("C20", prog("c20_se.cc", "san", "rel"),
     "Transformations from Lie-algebra vectors with rotation angle 0, 1e-14..1e-1, around every threshold of the code, multiples of pi/4, pi-1e-12..pi and beyond 2 pi, translations 0 and 1e-6..1e6; products, in-place products with itself, chains of up to 25 operations, inverses, actions on points, homogeneous vectors and matrices (static, dynamic, slices, column-major) from both sides; reading approximate transformations; float, double and mixed. Distinct = distinct Lie-algebra vectors.",
     ["se3/exp_translation", "se3/exp_ln_translation", "se3/ln_exp_translation", "se3/trinvadjoint_matrix", "se3/left_multiply_by_translation", "se2/homogeneous_times", "se2/adjoint_matrix", "se2/rotation_times_translation", "se2/chain_linear", "se2/read_linear", "se3/read_linear", "se3/float_exp_translation", "se3/mixed_product_linear"])

spec("C21", prog("c21_sim.cc", "san", "rel"),
     "As C20 with a log scale of 0, 1e-13..1e-1, around the series threshold 1e-6, and up to +-5, combined independently with every kind of angle. Distinct = distinct Lie-algebra vectors.",
     ["sim3/exp_translation", "sim3/exp_ln_translation", "sim3/ln_exp_translation", "sim3/trinvadjoint_matrix", "sim3/left_multiply_by_translation", "sim3/times_se3_linear", "sim2/homogeneous_times", "sim2/adjoint_matrix", "sim2/chain_linear", "sim2/read_linear", "sim3/read_linear", "sim3/float_exp_translation", "sim3/mixed_exp_translation"])

spec("C22", prog("c22_sl.cc", "san", "rel"),
     "SL(N) for N=2..6 (generators also 7 and 10): Lie-algebra vectors of any length including zero and single generators, products, inverses, chains, actions on static and dynamic vectors and matrices, construction from dense, triangular, permuted, scaled matrices of positive and (odd N) negative determinant; float, double and mixed. Distinct = distinct vectors.",
     ["sl2/exp", "sl3/ln_exp", "sl4/ln_exp", "sl6/ln_exp", "sl5/from_matrix", "sl3/read_determinant", "sl4/read_near", "sl3/inverse_determinant", "sl3/float_from_matrix", "gen/6_independent", "sl3/mixed_product", "sl6/chain"])

spec("C08", prog("c08_expm.cc", "san", "rel"),
     "exp: zero, multiples of the identity, skew, symmetric with large negative eigenvalues, nilpotent with huge entries, tiny, diagonal, integer, norms at powers of two; sqrt and log: exponentials with known logarithm, SPD, rotations up to nearly pi, unipotent, scaled 1e-60..1e60; ill-conditioned, singular and arbitrary matrices for termination (watchdog); sizes 1-8, static, dynamic, transposed, sliced; float and double. Distinct = distinct matrices.",
     ["s/exp", "dyn/exp", "float/exp", "s/exp_inverse", "s/sqrt_squares_back", "dyn/exp_log", "s/log_principal", "dyn/sqrt_principal", "float/sqrt_squares_back", "s/scalar_log", "s/returned", "float/returned", "s/exp_near_zero"])

spec("C23", prog("c23_simplex.cc", "san", "rel"),
     "Every iteration of runs over eleven kinds of objective (convex quadratics, l1 and max norm, Rosenbrock, cosh, many minima, steps and constants producing ties, flat bottom, infinite outside a ball, unbounded below), dimensions 1-7, static and dynamic, float, double, long double, default and altered move and stop parameters, restarts (also with another function); each evaluation is recorded and the move reconstructed from it. Distinct = distinct histories of moves.",
     ["s/documented_move", "s/move_expand", "s/move_reflect", "s/move_reflect_best", "s/move_contract", "s/move_contract_shrink", "s/move_shrink", "dyn/documented_move", "float/values_match_vertices", "s/stops_exactly_at_criterion", "dyn/restart_around_best", "dyn/restart_with_another_function", "conv/near_minimum", "ld/documented_move"])

spec("C24", prog("c24_linesearch.cc", "san", "rel"),
     "Line searches: thirteen kinds of function (quadratic, |x|, |x|^1.5, quartic, cosh, exponential, one-sided, flat bottom, square-root and infinite barriers, steps, several minima, constant), brackets with the inner point anywhere, iteration limits 0..1500, tolerances, float/double/long double; conjugate gradient over thirteen objectives (quadratics of condition up to 1e5, flat bottoms, plateaus to infinity, NaN and infinite domain edges, Rosenbrock, many minima, constant) of dimension 1-6, static and dynamic, float and double, every evaluation recorded. Distinct = distinct brackets and evaluation histories.",
     ["brent_inside_bracket", "brent_converges", "brent_iteration_limit", "golden_iteration_limit", "golden_converges", "golden_returns_best_seen", "float/brent_converges", "ld/golden_converges", "cg/objective_never_increases", "cg/best_point_seen_is_kept", "cg/converges", "cg/polak_ribiere", "cgdyn/position_and_value_consistent", "cgfloat/converges"])

spec("C25", prog("c25_deriv.cc", "san", "rel"),
     "Sums of one to four ridge functions (sine, exponential, powers, arctangent, rational, square root, logarithm, linear) with analytic derivatives, points with coordinates 0 and 1e-4..1e4, dimensions 1-6, static, dynamic and matrix-column arguments, float and double; functions that are undefined beyond a boundary closer than the first steps; every point the functor is evaluated at is recorded. Distinct = distinct points.",
     ["gradient", "gradient_points", "gradient_error_covers", "gradient_error_scale", "hessian_mixed", "hessian_diagonal", "hessian_points", "hessian_error_covers", "dyn/hessian_with_errors", "float/gradient", "hessian_symmetric", "boundary/static_gradient", "boundary/dynamic_gradient_with_errors", "boundary/static_curvature", "boundary/static_boundary_reached"])

spec("C07", prog("c07_helpers.cc", "san", "rel"),
     "Every function of helpers.h (norms, unit, normalize, project, unproject, inv, trace, Symmetrize, cross product and its matrix, finiteness and NaN tests, extrema with positions) over values with ties, zeros, negatives only, infinities, NaN, scales 2^-100..2^100 and empty objects; static, half static, dynamic, resizable, slices, rows, columns, diagonals, transposes, column-major and wrapped storage; float, double, long double, int. Surrounding memory of every view is watched. Distinct = distinct values and storage.",
     ["norm", "unit", "normalize", "dyn/normalize", "project", "dyn/unproject", "mat_project", "half/mat_unproject", "trace", "int/symmetrize", "cross_product", "min_element", "int/max_element", "min_element_vertical", "int/max_element_horizontal", "isfinite", "isnan", "mat_isnan_true", "dyn/extrema_of_nothing", "inv2", "storage/neighbours_untouched"])

def core(src, params, variants=("san",), opt="-O0"):
    """one program per (sizes, element type): template-heavy sources, compiled without optimisation under the sanitizers"""
    out = []
    for v in variants:
        for d in params:
            out.append(dict(src=src, variant=v, share=1.0, defs=tuple(([opt] if v != "rel" else []) + ["-D" + x for x in d.split()])))
    for i, p in enumerate(out): p["id"] = src + str(i) + p["variant"]
    return out

spec("C01", core("c01_vec.cc", ["VN1=3 VN2=3", "VN1=3 VN2=3 VTY=int", "VN1=-1 VN2=-1", "VN1=-1 VN2=-1 VTY=float", "VN1=3 VN2=-1", "VN1=-1 VN2=4 VTY=float"])
     + core("c01_mat.cc", ["VR1=2 VC1=3 VR2=2 VC2=3", "VR1=-1 VC1=-1 VR2=-1 VC2=-1", "VR1=3 VC1=3 VR2=-1 VC2=-1 VTY=int", "VR1=3 VC1=3 VR2=3 VC2=3 VTY=float", "VR1=2 VC1=-1 VR2=-1 VC2=3", "VR1=-1 VC1=-1 VR2=2 VC2=2"])
     + core("c01_mv.cc", ["VRR=-1 VCC=-1 VNV=-1", "VRR=3 VCC=3 VNV=3 VTY=float", "VRR=3 VCC=4 VNV=4 VTY=int", "VRR=3 VCC=-1 VNV=4", "VRR=-1 VCC=3 VNV=-1"])
     + core("c01_vec.cc", ["VN1=3 VN2=-1"], ["rel"]) + core("c01_mat.cc", ["VR1=3 VC1=3 VR2=3 VC2=3"], ["rel"]) + core("c01_mv.cc", ["VRR=-1 VCC=-1 VNV=-1"], ["rel"]) + core("c01_special.cc", [""], ["san", "rel"]),
     "Every vector, matrix, matrix-vector, diagonal and Zeros/Ones/Identity expression and compound assignment, over all pairs of storages (owned, resizable, slices, rows, columns, diagonals, wrapped, transposed, row- and column-major, read-only) and static/half static/dynamic sizes 0-70; values integral, ordinary, zero and of mixed magnitude; double, float, int; infinities, NaN, signed zeros, denormals and the largest numbers; vectors and matrices of up to 150000 elements; the assigned object also as an operand; bytes around every view and the other operands are watched. Distinct = distinct operand values and storages.",
     ["sum", "dot", "outer", "cross", "diagonal_times_vector", "times_own_element", "ones_times_own_element", "identity_times_own_element", "minus_assign_identity", "assignments_return_the_object", "readonly/sum", "int/divide", "float/dot", "scaled_identity_minus", "identity_minus", "product_transposed", "assign_product_with_self", "assign_square", "int/scale_int", "matrix_times_vector", "vector_times_matrix", "diagmult_left", "diagmult_right", "int/product", "assign_matrix_times_self", "row_plus_assign", "column_minus_assign", "not_equal_zeros", "storage/neighbours_untouched", "special_dot", "special_product", "special_diagmult", "special_divide", "huge"])

spec("C02", core("c02_views.cc", ["VTY=double"], ["san", "sanraw", "rel"]) + core("c02_views.cc", ["VTY=int"], ["san"]) + core("c02_idioms.cc", ["VTY=double"], ["san", "rel"]) + core("c02_idioms.cc", ["VTY=int"], ["san"]),
     "Random walks of up to five nested views (slices with static and run-time bounds, transposes, rows, columns, diagonals, as_row, as_col, as_slice, as_diagonal, read-only views) from owned, resizable, row- and column-major, wrapped (raw memory with surrounding elements) and named-element objects of sizes 0-6 (some up to 20), reading every element and writing in ten ways at every level; views passed to functions by .ref(), returned by their documented slice types and used through functions generic in the storage; the raw storage is compared with a plain array model after every write. Distinct = distinct walks.",
     ["read", "write_exact", "const_not_assignable", "final_storage", "named", "idiom_ref", "idiom_slice_type", "idiom_generic"])

def c03(r):
    import compile_cases; compile_cases.run(r)

spec("C03", core("c03_sizes.cc", ["PART=%d" % p for p in (2, 1, 5, 3, 4)], ["san"])
     + [dict(src="c03_sizes.cc", variant="rel", share=1.0, id="rel%d" % p, defs=("-DPART=%d" % p,) + (("-O0",) if p in (1, 2, 5) else ())) for p in (2, 1, 5, 3, 4)],
     "One operation per case on operands of random storage (static, half static, dynamic, resizable, wrapped, slices, rows, columns, transposes) and random sizes, offsets, indices (negative, zero, near overflow) or list lengths. If the sizes fit it runs in place and must be accepted; otherwise a child process runs it and must end by abort() with no sanitizer report, and memory shared with the child must be unchanged outside the operand. 98 statements with static sizes are compiled with fitting and with unfitting sizes. Distinct = distinct combinations of operation arguments.",
     ["%s/%s" % (a, k) for a in ("accepts", "rejects", "touched") for k in
      "add subtract dot diagmult add_assign subtract_assign assign equal assign_expression construct_static assign_slice diagonal_times_vector swap swap_views matrix_add matrix_subtract product matrix_add_assign matrix_assign matrix_equal transposed_product plus_identity assign_identity trace determinant construct_half_static assign_data matrix_times_vector vector_times_matrix diagmult_columns diagmult_rows diagonal_times_matrix matrix_times_diagonal assign_row assign_column assign_diagonal slice read_only_slice slice_of_slice slice_static_length slice_static_start slice_static matrix_slice read_only_matrix_slice matrix_slice_static_size matrix_slice_static transposed_slice index read_only_index matrix_index matrix_double_index matrix_pair_index transposed_index fill_two fill_three fill_matrix_six fill_matrix_nine assign_data_dynamic cholesky lu_backsub svd_backsub symeigen gaussian_elimination wls_add_mJ so3_times_vector se3_times_vector se3_exp sim3_exp sl_exp".split()]
     + ["compiles/add", "does_not_compile/add", "does_not_compile/slice_length", "does_not_compile/fill"], extra=c03,
     technique="runtime monitoring: every ill-sized operation is run in a child process under ASan+UBSan whose exit, memory and shared operands are observed; statements with static sizes are given to the compiler",
     assume=["a rejected operation ends the process with SIGABRT"])

spec("C04", core("c04_lifetime.cc", ["VTY=double"], ["san", "sanraw", "rel"]) + core("c04_lifetime.cc", ["VTY=Tracked"], ["sanraw", "san"]) + core("c04_lifetime.cc", ["VTY=int"], ["sanraw"]),
     "Histories of 8-40 operations over pools of six vectors and five matrices (static on the stack and large static on the heap, dynamic, half static, resizable, row- and column-major): construction from sizes, lists, copies, other types, slices; copy, move, swap (member, free, std, different types, slices), assignment from objects, slices, rows, expressions, itself; resizes, returns by value, standard containers and algorithms on them. Every object is compared with a plain array after every operation, storage ranges must not overlap, and with the counting element type the number of live elements must equal the sizes of the live objects and no dead element may be used. Distinct = distinct histories.",
     ["values/move_construct", "values/reassign_moved", "values/swap", "values/self_assign", "resize/keeps_elements", "values/resize", "container/values", "holder/values", "elements/live_assign", "elements/only_live_ones_used", "elements/all_destroyed", "matrix/values/self_assign", "matrix/values/swap", "matrix/elements/all_destroyed", "storage/distinct"])

spec("C05", core("c05_init.cc", ["VTY=double", "VTY=int", "VTY=CD", "VTY=float"], ["san"]) + core("c05_init.cc", ["VTY=int"], ["sanraw"]) + core("c05_init.cc", ["VTY=double"], ["rel"]),
     "Comma fills, Data lists (1-100 values), makeVector (1-30), initializer lists, arrays, wrapped pointers, Zeros, Ones, Identity plain, sized, scaled and negated, diagonal matrices, conversions between element types and storage orders, into every storage (static, dynamic, half static, resizable, row- and column-major, slices, rows, columns, diagonals, transposes, wrapped) with poisoned or marked previous contents; double, float, int, complex. Distinct = distinct value lists.",
     ["fill_vector/diagonal", "fill_matrix/transposed", "fill_matrix/halfc", "fill_mixed/dynamic_matrix", "make_vector/values", "data_matrix/dyncolmajor", "data_vector/dynamic", "list/resizable", "array/double", "pointer/column_major", "vector/dynamic/constructed_ones", "square/dyncolmajor/minus_identity", "convert/double_to_int/matrix", "scaled/identity", "diagonal/to_matrix"])

spec("C06", core("c06_stream.cc", ["VTY=double"], ["san", "rel"]),
     "Vectors, matrices (static, dynamic, resizable, row- and column-major, views of every kind) and groups written to text and read back into every kind of storage: signed zeros, denormals, extreme magnitudes, integers, short and 17-digit precision, several objects in one stream with other text between them, field widths and stream flags, truncated and malformed input. Distinct = distinct texts.",
     ["vector/same_elements", "vector/text", "matrix/same_elements", "matrix/text", "matrix/consumes_exactly", "float/vector/same_elements", "int/matrix/same_elements", "longdouble/vector/same_elements", "complex/vector/same_elements", "complex/matrix/same_elements", "sequence/same_objects", "sequence/views", "se3/translation", "se2/linear_part", "sim3/scale", "sim2/text", "so3/float/same_rotation", "so2/text", "sl3/same_element", "short/one_line_per_row", "short/matrix_transposed", "short/truncated_matrix_reported"])

# ------------------------------------------------------------------ C27: the same programs in differently configured builds
G = ["g++"]
CONFIGS = [  # name, compiler and flags, environment
    ("release", ["g++", "-O2"], {}),
    ("unoptimised", ["g++", "-O0"], {}),
    ("all_checks_snan", ["g++", "-O3", "-DTOON_CHECK_BOUNDS", "-DTOON_INITIALIZE_SNAN"], {}),
    ("initialise_value", ["g++", "-O2", "-DTOON_INITIALIZE_VAL=-37.25"], {}),
    ("initialise_random", ["g++", "-O1", "-DTOON_INITIALIZE_RANDOM", "-DTOON_CHECK_BOUNDS"], {}),
    ("ndebug", ["g++", "-O3", "-DTOON_NDEBUG"], {}),
    ("initialise_qnan", ["g++", "-O2", "-DTOON_INITIALIZE_QNAN", "-DTOON_NDEBUG_SLICE"], {}),
    ("clang", ["clang++", "-O2"], {}),
    ("release_dirty_heap", ["g++", "-O2"], {"MALLOC_PERTURB_": "90"}),
    ("float_default", ["g++", "-O1", "-DTOON_DEFAULT_PRECISION_TYPE=float"], {}),   # the workloads name their element types
]
CONFIGS_THOROUGH = [
    ("ndebug_mismatch", ["g++", "-O1", "-DTOON_NDEBUG_MISMATCH", "-DTOON_INITIALIZE_NAN"], {}),
    ("ndebug_size", ["g++", "-O2", "-DTOON_NDEBUG_SIZE", "-DTOON_INITIALIZE_VAL=1e300"], {}),
    ("ndebug_fill", ["g++", "-O2", "-DTOON_NDEBUG_FILL", "-DTOON_CHECK_BOUNDS"], {}),
    ("small_code", ["g++", "-Os", "-DTOON_INITIALIZE_VAL=3"], {}),
    ("clang_checks", ["clang++", "-O1", "-DTOON_CHECK_BOUNDS", "-DTOON_INITIALIZE_SNAN"], {}),
    ("native_inlining", ["g++", "-O3", "-funroll-loops", "-fno-strict-aliasing"], {}),
    ("release_dirty_heap2", ["g++", "-O2"], {"MALLOC_PERTURB_": "255"}),
]
def c27(r):
    from concurrent.futures import ThreadPoolExecutor
    src, unit = "c27_config.cc", "work"
    cfgs = CONFIGS + (CONFIGS_THOROUGH if r.tier == "thorough" else [])
    with ThreadPoolExecutor(8) as ex:
        mc = ex.submit(r.build, src, ["g++", "-O1", "-g", "-DVP_MEMCHECK"])
        bins = list(ex.map(lambda c: r.build(src, c[1]), cfgs)); mc = mc.result()
    if not bins[0] or not mc: return
    total = int(subprocess.run([bins[0], "--list", "--tier", r.tier], capture_output=True, text=True).stdout.split()[1])
    step = 180 if r.tier == "quick" else 300
    ranges = [(a, min(a + step, total)) for a in range(0, total, step)]
    diffs = []
    def one(rg):
        a, b = rg; base = None; compared = {}
        for (name, fl, env), bn in zip(cfgs, bins):
            if not bn: continue
            rec = os.path.join(r.dir, "rec_%s_%d" % (name, a))
            res, out = r.shard(bn, unit, a, b, src, fl, (), tag=name, env_add=dict(env, VP_REC=rec))
            lines = {}
            for f in glob.glob(rec + ".*"):
                for l in open(f):
                    i, _, rest = l.partition(" ")
                    if rest.endswith("\n"): lines[int(i)] = rest
                os.unlink(f)
            if base is None: base = lines; r.absorb(res, out, src, fl)
            else:
                r.absorb(dict(res, cases=0, samples=[]), out, src, fl) if res else None
                n = 0
                for i, l in base.items():
                    o = lines.get(i)
                    if o is None: continue
                    n += l.count(" ")
                    if o != l:
                        item = l.split("\t")[0].strip(); xa, xb = l.split("\t"), o.split("\t")
                        k = next((j for j in range(min(len(xa), len(xb))) if xa[j] != xb[j]), 0)
                        diffs.append((name, item, i, xa[k][:160].strip(), xb[k][:160].strip(), fl))
                compared[name] = n
        return compared
    def memcheck(rg):
        res, out = r.shard(mc, unit, rg[0], rg[1], src, ["g++", "-O1", "-g", "-DVP_MEMCHECK"], (), extra=("--hang", "300"), tag="mc", prefix=("valgrind", "-q", "--error-limit=no"))
        return res, out
    mstep = 60; mtotal = min(total, 960 if r.tier == "quick" else 9600)
    with ThreadPoolExecutor(8) as ex:
        f1 = [ex.submit(one, x) for x in ranges]
        f2 = [ex.submit(memcheck, (a, min(a + mstep, mtotal))) for a in range(0, mtotal, mstep)]
        tot = {}
        for f in f1:
            for k, n in f.result().items(): tot[k] = tot.get(k, 0) + n
        for f in f2:
            res, out = f.result(); r.absorb(dict(res, samples=[]) if res else None, out, src, ["g++", "-O1", "-g", "-DVP_MEMCHECK"])
    for k, n in tot.items(): r.rules["same_bits/" + k] = [n, 0.0]
    r.notes["values_compared_per_configuration"] = tot
    for name, item, i, xa, xb, fl in diffs[:200]:
        label = xa.split(" ")[0] if "/" in xa.split(" ")[0] else item
        r.violation("same_bits/" + label, "", i, "case %d (%s): built as %s: %s ; as %s: %s" % (i, item, cfgs[0][0], xa, name, xb), " ".join(fl), fl, src)

spec("C26", core("c26_mixed.cc", ["VREAL VP1=%s" % t for t in ("S8", "S16", "int", "U", "long", "float", "double", "LD")] + ["PLANARS=3 VSOLVE"], ["san"]) + core("c26_mixed.cc", ["VREAL VP1=int", "VREAL VP1=float", "PLANARS=3"], ["rel"]),
     "elements of the two operands have different types (or complex ones); sizes and values random; non-degenerate right operand of the division",
     ["mixed/%s" % k for k in "sum sum_type difference matrix_sum plus_ones minus_ones ones_minus plus_identity minus_identity identity_minus diagmult times_scalar scalar_times dot dot_type product product_type product_reversed matrix_vector vector_matrix matrix_diagmult diagmult_matrix diagonal_times outer cross readonly_view divided_by matrix_divided_by add_assign subtract_assign compare compare_equal".split()]
     + ["complex/%s" % k for k in "sum sum_type difference dot dot_type product product_type matrix_vector times_scalar divided_by outer".split()]
     + ["planar/%s" % k for k in "elements follows_changes slice static_slice expressions dot text matrix_vector".split()] + ["solve/cholesky", "solve/svd"])

spec("C27", [],
     "48 workloads over every header (expressions and storage of vectors and matrices, streams, solvers, every decomposition, matrix functions, least squares, groups, optimisers, derivatives; static, dynamic, resizable; float, double, long double, complex). Each case records every element of every result; the records of ten (thorough: seventeen) builds that differ in optimisation, compiler, checking and initialisation options and heap contents must agree bit for bit, and under valgrind every recorded value must be defined. Distinct = distinct records.",
     ["same_bits/" + c[0] for c in CONFIGS[1:]] + ["memcheck/results_defined", "memcheck/no_errors"], extra=c27,
     assume=["NaN results are compared as NaN, without their sign and payload"])

spec("C28", [dict(src="c28_threads.cc", variant="tsan", share=1.0, id=0, defs=["-DVN=2"]), dict(src="c28_threads.cc", variant="tsanrand", share=1.0, id=1, defs=[]), dict(src="c28_threads.cc", variant="rel", share=1.0, id=2, defs=["-DVN=8"])],
     "Two to seven threads, started together in a fresh process, each run up to eight of the 48 workloads of C27 on objects of their own, or six groups of read-only operations on shared constant vectors, matrices, decompositions, groups and accumulators, with random delays; mixes concentrate on one workload so that its first uses coincide. Built with ThreadSanitizer (plain, and with bounds checks and random initialisation) and as a release build; every recorded result must have the bits of the same workload run alone. Distinct = distinct interleavings (orders of starts and ends of operations).",
     ["threads/same_results", "threads/shared_same_results", "threads/no_data_race", "threads/shared_no_data_race", "threads/finish", "observed/overlapping_operations"],
     assume=["LAPACK and BLAS are not instrumented: races inside them are visible only through wrong results"])

# ------------------------------------------------------------------ C29: programs of several translation units
HEADERS = "TooN.h helpers.h Cholesky.h Lapack_Cholesky.h LU.h QR.h QR_Lapack.h SVD.h GR_SVD.h SymEigen.h determinant.h gauss_jordan.h gaussian_elimination.h wls.h irls.h so2.h se2.h so3.h se3.h sim2.h sim3.h sl.h functions/derivatives.h optimization/brent.h optimization/golden_section.h optimization/conjugate_gradient.h optimization/downhill_simplex.h named_elements.h lapack.h".split()
USE_FN = "toon helpers cholesky lapack_cholesky lu qr qr_lapack svd gr_svd symeigen determinants gauss_jordan gaussian_elimination wls irls so2 se2 so3 se3 sim2 sim3 sl derivatives brent golden conjugate simplex named lapack".split()
L29 = "-DTOON_USE_LAPACK"
SAN29 = ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
PROGRAMS29 = [  # name, options of the units, of main, single header units?, more definitions
    ("sanitized", [["g++"] + SAN29 + [L29, "-DTOON_CHECK_BOUNDS", "-DTOON_INITIALIZE_SNAN"], ["g++"] + SAN29, ["g++"] + SAN29 + [L29, "-DNDEBUG"], ["g++"] + SAN29 + ["-std=gnu++20", "-DTOON_INITIALIZE_VAL=-7.5", "-DTOON_NDEBUG_SIZE"]], ["g++"] + SAN29, [], []),
    ("mixed", [["g++", "-O2", L29], ["clang++", "-O2", "-DTOON_CHECK_BOUNDS", "-DTOON_INITIALIZE_QNAN"], ["g++", "-O0", "-DTOON_INITIALIZE_RANDOM", "-DTOON_NDEBUG_MISMATCH"], ["clang++", "-O1", "-std=gnu++20", "-DTOON_NDEBUG", L29], ["g++", "-O3", "-DTOON_CHECK_BOUNDS", L29]], ["g++", "-O1"],
     [["g++", "-O1", L29, "-DTOON_CHECK_BOUNDS"], ["clang++", "-O0", "-std=gnu++20"]], []),
    ("float", [["g++", "-O2", L29, "-DVPP=,float", "-DVPQ=float"], ["g++", "-O1", L29, "-DTOON_DEFAULT_PRECISION_TYPE=float", "-DTOON_CHECK_BOUNDS"], ["clang++", "-O2", "-DTOON_DEFAULT_PRECISION_TYPE=float"]], ["g++", "-O1"], [], ["-DUSE_ONLY", '-DVKEY="float/"', "-DVTOL=1e-3"]),
    ("explicit", [["g++", "-O1"], ["g++", "-O1", L29, "-DTOON_DEFAULT_PRECISION_TYPE=float", "-DVPP=,double", "-DVPQ=double"], ["g++", "-O1", "-DVPP=,double", "-DVPQ=double", "-DTOON_CHECK_BOUNDS"]], ["g++", "-O1"], [], ["-DUSE_ONLY", '-DVKEY="explicit/"']),
]
SOLE_THOROUGH = [["g++", "-O0", "-std=gnu++20"], ["clang++", "-O1", L29], ["g++", "-O2", L29, "-DTOON_INITIALIZE_SNAN", "-DNDEBUG"]]
def c29(r):
    import random, hashlib
    from concurrent.futures import ThreadPoolExecutor
    src = "c29/main.cc"; hd = os.path.join(run.HARNESS, "c29")
    base = ["-w", "-fno-omit-frame-pointer", "-ffp-contract=off", "-I", run.REPO, "-I", run.HARNESS, "-I", hd]
    ver = {c: subprocess.run([c, "--version"], capture_output=True).stdout for c in ("g++", "clang++")}
    def order(k):
        h = list(HEADERS); random.Random(r.seed * 1000 + k).shuffle(h)
        f = os.path.join(r.dir, "order_%d.h" % k); open(f, "w").write("".join("#include <TooN/%s>\n" % x for x in h)); return f, h[0]
    def obj(file, flags, what):
        cmd = [flags[0]] + base + flags[1:]; path = os.path.join(hd, file)
        pre = subprocess.run(cmd + ["-E", "-P", path], capture_output=True)
        key = hashlib.sha256(pre.stdout + repr([x for x in cmd if not x.startswith(r.dir)]).encode() + ver[flags[0]]).hexdigest()[:32]; out = os.path.join(r.cache, key + ".o")
        if os.path.exists(out): return out, ""
        tmp = out + ".%d.tmp.o" % os.getpid()
        for attempt in (0, 1):
            try: p = subprocess.run(cmd + ["-c", path, "-o", tmp], capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired: raise run.Undecided("compilation of %s timed out" % what)
            if p.returncode == 0:
                os.rename(tmp, out); return out, ""
            if "error:" in p.stderr and "Killed" not in p.stderr and "internal compiler error" not in p.stderr: break
        if "error:" not in p.stderr: raise run.Undecided("cannot compile %s: %s" % (what, p.stderr[-1500:]))
        return None, " | ".join([l for l in p.stderr.splitlines() if "error:" in l][:3])
    jobs = []   # (program, kind, what, flags, file)
    with ThreadPoolExecutor(8) as ex:
        for pi, (name, units, mainf, sole, defs) in enumerate(PROGRAMS29):
            for k, u in enumerate(units):
                o, first = order(10 * pi + k)
                opt = " ".join(x for x in u if not x.startswith("-f") and x != "-g1")
                jobs.append((name, "unit", "headers in random order, %s first (%s)" % (first, opt), ex.submit(obj, "tu.cc", u + defs + ["-include", o, "-DVTU=%d" % (k + 1), '-DVOPT="%s"' % opt.replace('"', "'")], first)))
            lst = []
            for k, u in enumerate(sole + (SOLE_THOROUGH if sole and r.tier == "thorough" else [])):
                for i, (h, fn) in enumerate(zip(HEADERS, USE_FN)):
                    e = "sole_%d_%s" % (k, fn); lst.append((e, i + 1, h + " alone, " + " ".join(u)))
                    jobs.append((name, "sole", "<TooN/%s> alone (%s)" % (h, " ".join(u)), ex.submit(obj, "sole.cc", u + ["-DUSE_INC=<TooN/%s>" % h, "-DUSE_HDR=%d" % (i + 1), "-DUSE_NS=use_%s" % e, "-DUSE_FUN=" + fn, "-DUSE_ENTRY=" + e, "-DUSE_NAMED=Pt_" + e], h)))
            lf = os.path.join(r.dir, "soles_%s.h" % name); open(lf, "w").write("#define SOLE_LIST(X) " + " ".join('X(%s,%d,"%s")' % x for x in lst) + "\n")
            jobs.append((name, "main", "main", ex.submit(obj, "main.cc", mainf + defs + ["-include", lf], "main")))
        objs = {}; bad = False; ncomp = 0
        for name, kind, what, f in jobs:
            o, err = f.result(); ncomp += 1
            if o is None:
                bad = True; r.violation("compiles/" + kind, "", 0, "a legal program no longer compiles: %s: %s" % (what, err), what, "custom", src)
            else: objs.setdefault(name, []).append(o)
        r.rules["compiles"] = [ncomp, 0.0]
        if bad: return
        runs = []
        for pi, (name, units, mainf, sole, defs) in enumerate(PROGRAMS29):
            for order_k in range(2):
                l = list(objs[name]); random.Random(r.seed * 77 + order_k).shuffle(l)
                out = os.path.join(r.dir, "prog_%s_%d" % (name, order_k))
                p = subprocess.run(["g++"] + [x for x in mainf[1:] if x.startswith("-fsan")] + l + ["-o", out, "-llapack", "-lblas", "-lpthread"], capture_output=True, text=True)
                if p.returncode:
                    if "multiple definition" in p.stderr or "undefined reference" in p.stderr:
                        m = [x for x in p.stderr.splitlines() if "multiple definition" in x or "undefined reference" in x][0]
                        r.violation("links/" + name, "", 0, "translation units that include the headers cannot be linked into one program: " + m[-400:], "", "custom", src); break
                    raise run.Undecided("cannot link: " + p.stderr[-1500:])
                r.rules["links"] = [r.rules.get("links", [0])[0] + 1, 0.0]
                for line in subprocess.run([out, "--list", "--tier", r.tier], capture_output=True, text=True).stdout.split("\n"):
                    if not line.strip(): continue
                    u, n = line.split(); n = int(n) // (1 if u == "startup" else 2); k = min(n, 4)
                    for i in range(k):
                        a, b = order_k * n + n * i // k, order_k * n + n * (i + 1) // k
                        if u == "startup": a, b = 0, 1
                        runs.append(ex.submit(r.shard, out, u, a, b, src.replace("/", "_"), "custom", (), (), name + str(order_k), {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_odr_violation=2:check_initialization_order=1:strict_init_order=1"} if name == "sanitized" else None))
        for f in runs:
            res, out = f.result(); r.absorb(res, out, src, "custom")
    r.notes["translation_units"] = ncomp

spec("C29", [],
     "Programs of three to five translation units (one for each set of options: bounds checks, initialisation, NDEBUG, none; gcc and clang, C++17 and C++20; the 29 public headers in a different random order in each) plus, for each public header, units that include that header alone, all linked together in random order. One small program per header is run from every unit on the same numbers and must give the same bits; objects at namespace scope must have the values the same expressions have later; layouts must agree; histories pass, return, move, swap, throw, print, resize and destroy objects across units and compare with plain arrays; with ASan (ODR and initialisation-order detection) and UBSan. The same with float as the default precision, against explicit float. Distinct = distinct inputs and histories.",
     ["same_in_every_unit/" + h.split("/")[-1] for h in HEADERS] + ["sole_header/" + h.split("/")[-1] for h in HEADERS] + ["float/same_in_every_unit/" + h.split("/")[-1] for h in HEADERS]
     + ["startup/globals", "startup/layout", "history/values", "passed/vector", "passed/resizable", "passed/large", "passed/static", "passed/structure", "passed/slice", "returned/product", "returned/matrix_times_vector", "thrown/vector", "printed/matrix", "shared/svd", "shared/wls", "compiles", "links"], extra=c29,
     technique="runtime monitoring: programs of many differently compiled translation units run under ASan+UBSan with ODR and initialisation-order detection and result monitors; building and linking them is part of the observation")

G30 = [f + g + "/" + l + k + "_derivative" for f in ("", "float/") for g in ("so2", "so3", "se2", "se3") for l in ("", "left_") for k in ("static", "dynamic")]
D30 = ["diff/" + n + "/" + k for n in "arithmetic norms solve cholesky wls so3 so3_ln se3 se3_ln se2 matrix_log".split() for k in ("value", "derivative", "derivative_dynamic")]
spec("C30", prog("c30_autodiff.cc", "san", "rel", defs=("-I" + run.HARNESS + "/fad",)),
     "Vectors and matrices of forward automatic differentiation types (fixed and run-time number of derivatives; a stand-in for FADBAD++ with the same interface) through arithmetic, norms, solvers, Cholesky, least squares, groups and matrix logarithms at random points with many exact zeros; derivatives compared with differences of the same functions in long double, and with closed forms for the groups. Distinct = distinct points.",
     G30 + D30 + ["vec/static/make_fad_vector", "vec/dynamic/make_fad_vector", "jac/static/jacobian", "jac/dynamic/dynamic_jacobian", "jac/static/row_jacobian", "jac/matrix_derivative", "scalar/abs_derivative", "scalar/stream"], technique="runtime monitoring: derivative oracles (closed forms and long double differences) over executions with automatic differentiation types, under ASan+UBSan")
spec("C31", prog("c31_field.cc", "san", "rel", "nolapack"),
     "Random regular systems, symmetric matrices with regular leading minors and least-squares problems over integers modulo 2^61-1 and over rationals, in every storage, sizes 1-20, with zero pivots and singular matrices; arithmetic also over quaternions, which do not commute. Distinct = distinct matrices.",
     [f + "/" + s + "/" + k for f in ("mod", "rat") for s in ("static", "dynamic") for k in "gaussian_elimination gaussian_elimination_matrix gauss_jordan_inverse determinant determinant_singular determinant_of_product LDL backsub backsub_matrix inverse mahalanobis rank".split()] + ["mod/static/wls_solution", "rat/static/wls_solution", "mod/dynamic/wls_solution", "mod/stream_vector", "mod/stream_matrix"]
     + [f + "/matrix/" + s + "_product" for f in ("mod", "rat", "quaternion") for s in "static dynamic colmajor slice transposed".split()] + ["quaternion/matrix/" + s + "_" + k for s in "static dynamic colmajor slice transposed".split() for k in "scale times_vector vector_times diagmult_left diagmult_right".split()] + [f + "/vector/" + s + "_dot" for f in ("mod", "rat", "quaternion") for s in "static dynamic column resizable slice".split()], technique="runtime monitoring: exact oracles (the defining equations hold without rounding) over executions with exact element types, under ASan+UBSan")
spec("C32", prog("c32_cost.cc", "san", "rel"),
     "Layouts for eight element types on both sides of the stack limit; heap allocations (operator new, and malloc under ASan) and element operations counted around each operation on static, dynamic, large and resizable objects of random sizes. Distinct = distinct size combinations.",
     ["layout/%s_no_metadata_%s" % (k, t) for k in ("vector", "matrix") for t in "char short int float double longdouble complex user".split()] + [s + "/none/" + k for s in ("double", "float", "largest") for k in "vector_add matrix_matrix matrix_vector cholesky gaussian_elimination gauss_jordan determinant wls exp views view_writes".split()]
     + ["groups/none/" + k for k in "so3 se3 so2_se2 sim sl wls wrapped named".split()] + ["dynamic/none/" + k for k in "assign compound_vector compound_matrix dot slices subscript".split()] + ["construct/" + k for k in "add matrix_vector matrix_matrix outer diagonal_matrix returned_sum moved_through chain".split()]
     + ["elements/" + k for k in "row column transpose slice diagonal as wrap move".split()] + ["ops/" + k for k in "matrix_matrix matrix_vector gaussian_elimination determinant cholesky diagonal_matrix".split()] + ["resizable/amortised_growth", "resizable/storage_stays", "large/values"], technique="runtime monitoring: allocation hooks and a counting element type observe the cost of each operation; bounds are the documented costs")

def decide(r):
    s = SPEC[r.prop]
    r.run_programs(s["programs"])
    if s["extra"]: s["extra"](r)
    return r.finish(s["rule"], ASSUME + s["assume"], require=s["require"])
