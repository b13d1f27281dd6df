"""The property texts; `python3 lib/gen_meta.py` writes properties.jsonl and MANIFEST.json from them."""
def P(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook,
                             **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})))
API = "src/osqp_api.c"; AUX = "src/auxil.c"; POL = "src/polish.c"; UT = "src/util.c"; SC = "src/scaling.c"
DIR = "algebra/mkl/lin_sys/direct/pardiso_interface.c"; IND = "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"; QD = "algebra/_common/lin_sys/qdldl/qdldl_interface.c"
KKT = "algebra/_common/kkt.c"; VEC = "algebra/mkl/vector.c"; MAT = "algebra/mkl/matrix.c"; CSCU = "algebra/_common/csc_utils.c"; CSCM = "algebra/_common/csc_math.c"
HDR = "include/public/osqp_api_functions.h"; CON = "include/public/osqp_api_constants.h"

PROPS = [
P("P01", "Solved means optimal within tolerance for the caller's own data",
  "Whenever a problem is reported solved (or solved inaccurate), the returned primal point violates the caller's own constraints, and the returned primal-dual pair violates stationarity, by no more than the configured absolute and relative tolerances (ten times them when inaccurate), measured on unscaled data unless scaled termination is requested. When duality-gap checking is on the gap obeys the same tolerances, and nonzero duals sit only at the bound their sign points to (up to those tolerances; a polished point is held to its residuals). A reported solution is always finite.",
  ["inputs", "configurations"], "every convex problem of any shape, scaling and conditioning, every valid combination of settings and linear solver",
  "tests compare a few dozen fixed problems with stored optima under a handful of settings; the guarantee is over every problem and settings combination, including scaling and rounding interplay",
  [AUX, API, SC, POL], [("termination test", AUX + ": check_termination, compute_prim_tol, compute_dual_tol, compute_duality_gap_tol"), ("unscaling of the solution", SC + ": unscale_solution"), ("iteration", AUX + ": update_x/update_z/update_y")],
  ["solution and info after osqp_solve"]),
P("P02", "Reported info describes the returned solution",
  "After every solve the reported objective, dual objective, duality gap, primal and dual residuals are those of the returned primal-dual pair on the caller's own data, the duality gap equals primal minus dual objective, and status code and text agree. The iteration count is between one and the limit, and solution or certificate fields that do not apply to the status hold the documented not-a-number marker, with infinite objective of the right sign for infeasible problems.",
  ["inputs", "configurations"], "every problem, status and settings combination, with and without scaling, polishing, either linear solver",
  "tests assert a few objective values to loose tolerance on well-behaved data; nothing recomputes info from the returned vectors",
  [AUX, API, POL, UT], [("info refresh", AUX + ": update_info, compute_obj_val_dual_gap"), ("polish overwrite", POL + ": polish"), ("storing the result", AUX + ": store_solution")],
  ["solution and info after osqp_solve"]),
P("P03", "Primal infeasibility certificates are genuine",
  "Whenever a problem is reported primal infeasible, the returned certificate has unit infinity norm, uses only bounds that exist, has a strictly negative support value against the caller's bounds, and its product with the transposed constraint matrix is within the configured infeasibility tolerance (ten times it when inaccurate).",
  ["inputs", "configurations"], "every problem and settings combination under which this status is reported",
  "tests check the status of a few fixed infeasible problems and never validate the certificate against the original data",
  [AUX, API], [("criterion", AUX + ": is_primal_infeasible"), ("unscaling and normalising", AUX + ": check_termination, store_solution")], ["prim_inf_cert, status"]),
P("P04", "Dual infeasibility certificates are genuine",
  "Whenever a problem is reported dual infeasible, the returned certificate has unit infinity norm, strictly decreases the caller's linear cost, and has zero curvature and stays within the recession cone of the caller's constraints up to the configured tolerance (ten times it when inaccurate).",
  ["inputs", "configurations"], "every problem and settings combination under which this status is reported",
  "tests check the status of a few fixed unbounded problems and never validate the certificate against the original data",
  [AUX, API], [("criterion", AUX + ": is_dual_infeasible"), ("unscaling and normalising", AUX + ": check_termination, store_solution")], ["dual_inf_cert, status"]),
P("P05", "Well-posed problems get the right verdict",
  "A well-conditioned strongly convex feasible problem is reported solved within the default iteration limit and its solution is close to the true optimum; with the direct solver, a clearly primal infeasible or clearly unbounded well-scaled problem is reported as such within the default limit (a problem that is both may be reported as either). A problem with a strictly feasible point of adequate margin is never reported primal infeasible, a strongly convex problem is never reported dual infeasible, and a problem that is infeasible with margin is never reported solved.",
  ["inputs", "configurations"], "all problems of the stated classes, for either linear solver and varied settings",
  "tests exercise a few dozen fixed instances; a slip in iteration, rho handling or termination often still solves those",
  [API, AUX, DIR, IND], [("ADMM loop", API + ": osqp_solve"), ("rho adaptation", AUX + ": adapt_rho"), ("termination", AUX + ": check_termination")], ["status, solution, iterations"]),
P("P06", "Non-convexity is refused and convexity never is",
  "With the direct solver, setup refuses a problem with the non-convexity error exactly when the quadratic cost, with its regularisation and penalty terms, fails to be positive definite by a clear margin, and marks the solver non-convex; updating the matrices to such a problem is refused too. A convex problem is never flagged, and a non-convex problem that is accepted because its penalty terms dominate is reported solved only at a point that is stationary and feasible to the tolerances.",
  ["inputs", "histories"], "all symmetric cost matrices with a definite or indefinite inertia margin, at setup and through matrix updates",
  "tests have two non-convex instances at setup and none through updates",
  [DIR, QD, API], [("inertia check", DIR + ": init_linsys_solver_pardiso, update_linsys_solver_matrices_pardiso"), ("status", API + ": osqp_setup")], ["return codes, status"]),
P("P07", "Vector updates are equivalent to a fresh setup",
  "After any sequence of accepted updates of the linear cost and bounds, a cold-started solve behaves exactly as a solver freshly set up with the resulting data: bit-identical outcome without scaling, and an outcome that satisfies the same guarantees for the new data with scaling. Updating some vectors leaves the others as they were.",
  ["histories", "inputs"], "all sequences of vector updates, including ones that turn constraints into equalities, inequalities or free rows and back, interleaved with solves",
  "tests perform one or two updates on one small problem and compare loosely",
  [API, AUX], [("vector update", API + ": osqp_update_data_vec"), ("constraint types", AUX + ": set_rho_vec, update_rho_vec")], ["solution, info"]),
P("P08", "Matrix updates are equivalent to a fresh setup",
  "After any sequence of accepted updates of entries of the cost or constraint matrix, full or by index in any order, a cold-started solve matches a solver freshly set up with the resulting matrices, and its outcome satisfies the same guarantees for the new data. Entries not named by the update keep their values, and later updates that a fresh solver would accept are accepted.",
  ["histories", "inputs"], "all sequences of full and partial matrix updates, interleaved with vector updates and solves, with and without scaling, with either linear solver",
  "tests update a handful of entries of one matrix once",
  [API, KKT, MAT, DIR, IND, SC], [("matrix update", API + ": osqp_update_data_mat"), ("KKT maps", KKT + ": update_KKT_P, update_KKT_A"), ("rescaling", SC + ": scale_data, unscale_data")], ["solution, info, linear solves"]),
P("P09", "A rejected call changes nothing",
  "When an update or settings call is rejected with an error code because of invalid arguments, the solver afterwards behaves exactly as if the call had never been made: same stored result, same subsequent solves, bit for bit.",
  ["histories", "inputs"], "every invalid argument to every update function, at every point of an API history",
  "tests check only the returned code of a few invalid calls",
  [API], [("validate before commit", API + ": osqp_update_data_vec, osqp_update_data_mat, osqp_update_rho, osqp_update_settings")], ["twin solvers compared bitwise"]),
P("P10", "Penalty and settings updates take effect exactly",
  "Setting the penalty parameter through the update call is indistinguishable from setting up with that value, including clipping to its allowed range and equality and free rows getting their own penalty. Updating settings replaces exactly the documented updatable ones, takes effect in the next solve just as if set at setup, and leaves the settings fixed at setup untouched.",
  ["histories", "inputs", "configurations"], "all accepted penalty values and settings structures, in all orders with solves and data updates",
  "tests change one or two settings and look at a coarse effect",
  [API, DIR, IND, AUX], [("rho update", API + ": osqp_update_rho"), ("settings update", API + ": osqp_update_settings")], ["settings structure, twin solvers"]),
P("P11", "Warm and cold starts set the iterate they promise",
  "Warm starting with a primal and dual point makes the first iteration start from exactly that point in the caller's units, replacing only the given part; cold start, and disabling warm starting, makes a solve identical to one on a fresh solver with the same data and penalty. After an infeasible outcome the next solve does not start from invalid values.",
  ["histories", "inputs"], "all start points and all histories of solves, updates and starts",
  "tests check that a warm start takes few iterations on one problem",
  [API, AUX, SC], [("warm start", API + ": osqp_warm_start, osqp_cold_start"), ("reset after infeasibility", AUX + ": store_solution")], ["iterates via one-iteration solves"]),
P("P12", "Termination is checked exactly when promised and status is fresh",
  "A solve stops with a verdict only at a multiple of the configured checking interval or at the iteration limit, never runs past the limit, and stops at the first check at which the criteria hold. The status after any solve describes that solve alone, whatever earlier solves on the same solver returned; reaching the limit without meeting even the relaxed criteria is reported as maximum iterations.",
  ["histories", "configurations"], "all checking intervals and limits, all sequences of solves on one solver",
  "tests use default intervals and mostly solve once",
  [API, AUX], [("loop control", API + ": osqp_solve"), ("status", AUX + ": check_termination, update_status")], ["info.iter, status over prefixes of a run"]),
P("P13", "Polishing only ever improves the result and reports honestly",
  "With polishing on, the outcome before polishing is the same as with polishing off; a successful polish returns a pair whose primal and dual residuals are no larger than before (unless already negligible), and an unsuccessful or skipped polish leaves the unpolished result exactly. The polish status says which happened, polishing is attempted only for solved problems, and its regularisation is the configured one.",
  ["inputs", "configurations"], "all solvable problems and settings, including degenerate, redundant and badly guessed active sets",
  "tests check polish success on three fixed problems",
  [POL, API], [("polish", POL + ": polish, form_Ared, iterative_refinement"), ("acceptance", POL + ": polish")], ["twin solver without polishing"]),
P("P14", "Caller-owned memory is never modified or retained",
  "No call modifies the matrices, vectors or settings passed in, and once a call returns the caller may overwrite or free every argument without affecting any later behaviour of the solver.",
  ["histories", "inputs"], "every API call in every order",
  "tests never scribble over or free their inputs between calls",
  [API, MAT, VEC, UT], [("copies at setup", API + ": osqp_setup, copy_settings"), ("copies at update", API + ": osqp_update_data_vec, osqp_update_data_mat")], ["byte comparison, twin run with inputs destroyed"]),
P("P15", "Solves are deterministic and solver instances independent",
  "The same sequence of calls with the same data gives bit-identical results (apart from times), regardless of which other solver instances exist, were created before, or are being used in between, and regardless of what was left in memory.",
  ["histories", "inputs"], "all pairs of API histories interleaved in one process",
  "tests run one solver at a time and compare with loose tolerances",
  [API, AUX, DIR, IND, VEC], [("no shared state", API + ": osqp_setup, osqp_solve"), ("initialised work vectors", VEC + ": OSQPVectorf_calloc")], ["bitwise comparison of twin histories"]),
P("P16", "Different solvers can be used from different threads",
  "Distinct solver instances used concurrently from different threads race on no shared memory and give the same results as when used one after another.",
  ["schedules"], "all interleavings of API calls on distinct solvers",
  "the tests are single threaded",
  [API, AUX, DIR, IND, "src/error.c", UT], [("no global mutable state", API), ("per-solver workspaces", "include/private/types.h")], ["thread sanitizer reports, results vs sequential run"]),
P("P17", "API histories are memory safe and leak free",
  "For every sequence of API calls with valid arguments, including after failed setups and rejected updates, no access leaves its allocation, no uninitialised or freed memory is used, no arithmetic is undefined, and cleanup releases everything that was allocated.",
  ["histories", "inputs", "configurations"], "all API histories over all problem shapes including empty matrices, no constraints and degenerate sizes",
  "the tests run a few fixed sequences without instrumentation in this build",
  [API, AUX, POL, MAT, VEC, KKT, CSCU, CSCM, DIR, IND], [("ownership", API + ": osqp_cleanup"), ("allocation sizes", VEC), ("matrix storage", MAT)], ["address/undefined/memory sanitizers, tracking allocator"]),
P("P18", "Running out of memory is an error, never a crash or a leak",
  "If any single memory request fails during setup, solving, polishing, updating or matrix construction, the call returns an error code (or a null result), no invalid memory is touched, and cleaning up afterwards releases everything exactly once.",
  ["fault_sequences"], "every allocation of every API operation failing once, and failing from that point on",
  "the tests never make an allocation fail",
  [API, POL, DIR, IND, QD, KKT, CSCU, CSCM, MAT, VEC, UT], [("null checks", API + ": osqp_setup"), ("cleanup of partial state", API + ": osqp_cleanup")], ["return codes, sanitizer, live-allocation count"]),
P("P19", "An interrupt stops the solve promptly and leaves no trace",
  "A keyboard interrupt delivered during a solve makes that solve stop within one iteration with the interrupted status and a nonzero return code, and does not kill the process. Whether interrupted or not, the handler that was installed before the solve is back in place afterwards, and later solves on the solver behave as if no interrupt had happened.",
  ["crash_points", "histories"], "an interrupt at any iteration of any solve, any previously installed handler",
  "the tests never raise a signal",
  ["src/interrupt_unix.c", API], [("handler install/restore", "src/interrupt_unix.c"), ("poll", API + ": osqp_solve")], ["status, return code, sigaction state"]),
P("P20", "Invalid problems and settings are refused with the right error",
  "Setup rejects structurally invalid data with the data validation error and out-of-range settings with the settings validation error, without creating a solver or touching the caller's handle; settings updates and penalty updates reject the same out-of-range values. Values on the valid side of each documented limit are accepted.",
  ["inputs", "configurations"], "every field of every argument at, below and above its documented limits, alone and in combination",
  "tests try one bad value for some of the fields",
  [AUX, API], [("data validation", AUX + ": validate_data"), ("settings validation", AUX + ": validate_settings")], ["return codes, solver handle"]),
P("P21", "Helper calls are total and truthful",
  "Every entry point given a null or not yet initialised solver returns the not-initialised error instead of crashing; dimensions, capabilities, version, default settings and code-generation defaults are as documented and independent of history. Every error code has its own nonempty message and unknown codes get a generic one.",
  ["inputs", "histories"], "all error codes (including unknown, zero and negative), null solvers, solvers after failed setup",
  "tests look at a few codes and at null solvers for some calls only",
  [API, "src/error.c", UT], [("guards", API), ("messages", "src/error.c")], ["return values"]),
P("P22", "Sparse matrix helpers build valid matrices",
  "Creating, copying, viewing, scaling the identity, building diagonal and zero matrices give valid compressed-column matrices with exactly the requested entries and dimensions; freeing them frees exactly what they own. A matrix built on caller memory never frees it. The conversions behind them (copies, triplet and dense conversion, stacking, row selection, symmetric permutation, diagonal extraction) keep exactly the entries they should.",
  ["inputs"], "all dimensions (including empty and rectangular), sparsity patterns, element counts and orders of entries",
  "tests build a few small fixed matrices",
  [API, CSCU, HDR], [("constructors", API + ": OSQPCscMatrix_*"), ("utilities", CSCU)], ["matrix contents, allocator"]),
P("P23", "Vector and matrix kernels compute what they say",
  "Every vector and sparse-matrix kernel the solver relies on (norms, scaled norms, sums, products, clipping, bound classification, cone projection, diagonal scaling, products with a matrix and its transpose, row selection, value updates) agrees with its definition in extended precision, for all lengths including zero, infinite entries, aliasing that the solver uses, empty matrices and every combination of multipliers.",
  ["inputs", "configurations"], "all lengths, values, aliasing patterns, sparsity patterns, multipliers, both backends",
  "tests compare a few fixed vectors of one length",
  [VEC, MAT, CSCM, CSCU, "algebra/builtin/vector.c", "algebra/builtin/matrix.c"], [("kernels", VEC), ("sparse kernels", MAT)], ["kernel outputs"]),
P("P24", "Every linear solve solves the intended system",
  "At every iteration, the point produced by the linear solver satisfies the regularised optimality system of the caller's current data, scaling and penalties: to rounding for the direct solver, and to the promised accuracy for the indirect one; this stays true after every data, penalty and settings update and every penalty adaptation.",
  ["histories", "inputs"], "every linear solve of every run, over all problems, settings and update histories",
  "tests check one linear system once; a stale factor after an update usually still converges, only slower or to a subtly different point",
  [KKT, DIR, IND, "algebra/_common/reduced_kkt.c", QD], [("assembly", KKT + ": form_KKT"), ("refactorisation", DIR + ": update_linsys_solver_*"), ("CG", IND + ": solve_linsys_mklcg")], ["right-hand side and result of each solve"]),
P("P25", "The iteration is the documented algorithm",
  "With the direct solver each run follows the documented splitting iteration for the scaled problem: the iterates, penalty updates, termination decisions, iteration count and final point agree with an independent high-precision model of the algorithm run on the same data and settings, up to rounding.",
  ["inputs", "configurations"], "all problems and settings (relaxation, scaling, penalty vector or scalar, adaptation rule, check interval, limits)",
  "tests accept any iterate that ends near the optimum, so a wrong relaxation, penalty or residual formula passes",
  [API, AUX, SC], [("iteration", AUX + ": update_xz_tilde, update_x, update_z, update_y"), ("decisions", AUX + ": check_termination, adapt_rho")], ["status, iterations, final vectors"]),
P("P26", "Problem scaling is faithful and reversible",
  "With scaling on, the internally scaled problem is exactly the caller's problem under positive diagonal scalings and a positive cost factor whose stored inverses are consistent and which stay within the documented limits; rows and columns without entries are left alone, and the scalings are those of the documented equilibration of the current matrices and cost. This holds at setup and after every data update, so that repeated updates do not drift.",
  ["inputs", "histories"], "all problems, scaling iteration counts and update sequences",
  "tests never look at the scaled data",
  [SC, API], [("equilibration", SC + ": scale_data"), ("unscaling", SC + ": unscale_data")], ["scaled data vs caller's data"]),
P("P27", "Printing tells the truth and changes nothing",
  "With printing off a successful call writes nothing; with it on, results are the same as with it off, and the printed summary (status, objective, iteration count, problem sizes) agrees with the reported info.",
  ["inputs", "configurations", "histories"], "all problems, settings and outcomes, direct solver",
  "tests do not read the output",
  [UT, API, POL], [("summary", UT + ": print_footer, print_summary"), ("guards", API)], ["captured standard output, twin solver"]),
P("P28", "Times and the time limit are honest",
  "Reported times are nonnegative, consistent with each other and with the wall clock, the total being setup or update plus solve plus polish time of this solve only. A time limit stops the solve soon after it expires, reporting the limit (or the verdict the returned point deserves) with info that describes the returned point and the iterations actually performed.",
  ["inputs", "histories", "schedules"], "all time limits, stopping at any iteration, delays injected anywhere in an iteration, all histories of updates and solves",
  "one test uses one time limit and looks at the status only",
  [API, "src/timing_linux.c", AUX], [("timers", "src/timing_linux.c"), ("limit", API + ": osqp_solve")], ["info times, external clock"]),
P("P29", "Penalty adaptation follows its rule",
  "The penalty changes during a solve only when adaptation is on, only at the configured interval, only when the estimate differs from the current value by more than the configured factor, and always stays within its allowed range; the number of changes is reported. An automatic interval is a positive multiple tied to the checking interval, and time-based adaptation never adapts more often than the checking interval.",
  ["inputs", "configurations"], "all adaptation modes, intervals, tolerances and fractions, on all problems",
  "tests look at one adaptation history",
  [API, AUX], [("scheduling", API + ": osqp_solve"), ("estimate", AUX + ": compute_rho_estimate, adapt_rho")], ["penalty before each linear solve"]),
P("P30", "The other build configurations keep the same guarantees",
  "The built-in algebra with its sparse factorisation, single-precision arithmetic, 32-bit indices, and builds without printing, profiling or interrupts give outcomes that satisfy the same optimality and certificate guarantees as the default build, and double-precision builds agree with it.",
  ["configurations", "inputs"], "all problems and settings in each configuration",
  "only the default configuration is built and tested here",
  ["algebra/builtin/vector.c", "algebra/builtin/matrix.c", QD, API, AUX], [("builtin algebra", "algebra/builtin"), ("QDLDL interface", QD)], ["outcome oracles in each build"]),
P("P31", "Direct and indirect solvers agree",
  "The indirect linear solver solves the well-posed problems the direct one solves and never contradicts it on infeasible or unbounded ones (it may instead reach its iteration limit there); when solved, it gives an objective and solution equal to within the tolerances, with or without preconditioning and for every accuracy setting; its settings can be changed between solves.",
  ["inputs", "configurations", "histories"], "all well-posed problems, preconditioners, iteration limits and tolerance settings",
  "tests run both solvers on the same few problems",
  [IND, "algebra/_common/reduced_kkt.c"], [("CG", IND + ": solve_linsys_mklcg"), ("preconditioner", IND + ": cg_update_precond")], ["outcomes of twin solvers"]),
P("P32", "Generated code reproduces the solver",
  "Code generated from a solver, whatever its history, compiles as standalone C with the sources the build provides for it, carries the solver's data and settings exactly, and solves the same problem with the same status and iteration count and a solution equal to rounding, also after the calls the generated mode offers (vectors, warm starts, settings; matrices and rho in mode 2). Generating leaves the solver unchanged; solvers without a usable factorisation, unusable names and failed writes are reported as errors.",
  ["programs", "configurations"], "all problems, settings and generation options",
  "code generation is not built in this configuration",
  ["src/codegen.c", API], [("generator", "src/codegen.c"), ("embedded build", API)], ["output of the generated program"]),
P("P33", "Derivatives match finite differences",
  "The adjoint derivatives of the solution map with respect to all problem data agree with finite differences, to the accuracy the conditioning allows, at well-conditioned problems where the solution is differentiable, for any incoming gradient.",
  ["inputs"], "all strictly complementary strongly convex problems and incoming gradients",
  "derivatives are not built in this configuration and tests use few instances",
  ["src/derivative.c", QD], [("adjoint system", "src/derivative.c")], ["derivative outputs"]),
P("P34", "A solution can be retrieved at any time into caller storage",
  "Retrieving the solution copies exactly the outcome of the last solve into caller storage, any number of times, and works the same when the solver was told not to allocate its own solution; retrieving does not disturb the next solve.",
  ["histories", "configurations"], "all outcomes and histories, with and without solver-owned solution storage",
  "one test retrieves one optimal solution",
  [API, AUX], [("retrieval", API + ": osqp_get_solution"), ("storage", AUX + ": store_solution")], ["retrieved arrays vs solver-owned ones, twin solver"]),
P("P35", "Profiling sections are balanced",
  "Every profiling section that is entered is left again, in properly nested order, on every path through every call, including error returns.",
  ["histories", "fault_sequences"], "all API histories including failing ones",
  "annotations are not built in this configuration",
  [API, AUX, DIR, IND, POL, "src/profilers.c"], [("push/pop pairs", API)], ["annotation call log"]),
]
