"""What each check runs: library variants, harness sources, case counts (quick, thorough)."""
def part(variant, srcs, q, t, **kw):
    return dict(variant=variant, srcs=srcs, cases=(q, t), **kw)
TECH = "runtime oracle monitoring of the real library under generated workloads"
NA = {}
N_OUT = "Every execution of the workload is judged by an extended-precision oracle on the caller's own data; says nothing about inputs not generated. Trusts libm long double arithmetic and, for the scaled-termination tolerances, the solver's own scaling vectors."
OUT = ["p_outcome.cpp"]
PLAN = {
 "P01": dict(level="exploration", note=N_OUT, rule="random QPs/LPs and structured problems with random settings; distinct = (family, size, settings) tuples solved",
   parts=[part("mkl", OUT, 24000, 400000), part("blt", OUT, 6000, 100000)], need={"optimality_verdicts": 1000}),
 "P02": dict(level="exploration", note=N_OUT, rule="as P01 plus infeasible problems; distinct = (family, size, settings) tuples solved",
   parts=[part("mkl", OUT, 24000, 400000), part("blt", OUT, 6000, 100000)], need={"solves": 1000}),
 "P03": dict(level="exploration", note=N_OUT, rule="problems with an embedded Farkas certificate; distinct = (family, size, settings) tuples solved",
   parts=[part("mkl", OUT, 24000, 400000), part("blt", OUT, 6000, 100000)], need={"pinf_certificates": 1000}),
 "P04": dict(level="exploration", note=N_OUT, rule="problems with an embedded recession direction; distinct = (family, size, settings) tuples solved",
   parts=[part("mkl", OUT, 24000, 400000), part("blt", OUT, 6000, 100000)], need={"dinf_certificates": 1000}),
}
N_HIST = "Decided on generated API histories: each is executed on the real solver next to a twin (or an extended-precision model) and compared after every call. Histories, problems and settings not generated are not covered; direct-solver comparisons are bitwise with one math-library thread."
HIST = ["history.cpp", "p_history.cpp"]
def hist(prop, q, t, need, rule, note=N_HIST, **kw):
    PLAN[prop] = dict(level="exploration", note=note, rule=rule, parts=[part("mkl", HIST, q, t), part("blt", HIST, q // 4, t // 4)], need=need, **kw)
R_H = "random problems, settings and call sequences; distinct = (family, settings, call sequence) tuples executed"
hist("P07", 12000, 200000, {"fresh_twins": 1000, "path_twins": 1000}, R_H)
hist("P08", 12000, 200000, {"fresh_twins": 1000, "data_views": 1000}, R_H)
hist("P09", 8000, 150000, {"rejected_calls": 3000, "twin_comparisons": 3000}, R_H)
hist("P10", 10000, 150000, {"settings_updates": 1000, "rho_updates": 1000, "fresh_twins": 1000}, R_H)
hist("P11", 12000, 200000, {"iterate_comparisons": 2000, "infeasible_outcomes": 500}, R_H)
hist("P12", 8000, 120000, {"prefix_runs": 1000, "solves": 3000}, R_H)
hist("P14", 8000, 120000, {"argument_byte_checks": 3000, "twin_comparisons": 3000}, R_H)
hist("P15", 6000, 100000, {"twin_comparisons": 3000, "other_calls": 500}, R_H)
for _p in PLAN["P15"]["parts"]: _p["env"] = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}   # so that malloc fills every block
hist("P34", 8000, 120000, {"retrievals": 3000, "twin_comparisons": 3000}, R_H)
MOD = ["history.cpp", "p_model.cpp"]
def mod(prop, srcs, q, t, need, rule, note, bltfrac=3, **kw):
    PLAN[prop] = dict(level="exploration", note=note, rule=rule, parts=[part("mkl", srcs, q, t), part("blt", srcs, q // bltfrac, t // bltfrac)], need=need, **kw)
N_MOD = "Each run is compared iteration by iteration with an independent dense long-double model of the documented algorithm; runs where a threshold decision is within rounding are not judged from there on (counted as inconclusive). Well-scaled problems of up to ~25 variables, direct solvers."
mod("P25", MOD, 9000, 150000, {"iterations_compared": 100000, "runs_compared": 3000, "adaptive_runs": 300, "infeasible_runs": 100}, "random problems and settings, 1-3 solves each; distinct = (family, size, settings)", N_MOD)
mod("P29", MOD, 9000, 150000, {"iterations_compared": 50000, "penalty_changes": 1000, "time_based_intervals": 100}, "half model-compared runs, half black-box logs of the penalty at every linear solve with injected delays; distinct = (family, size, settings)", N_MOD)
LIN = ["history.cpp", "p_linsys.cpp"]
mod("P24", LIN, 9000, 150000, {"direct_solves": 50000, "indirect_solves": 20000, "cg_accuracy_checks": 5000}, "every linear solve of random update/solve histories; distinct = (family, settings, history)", "The residual of every linear solve the ADMM loop performs is computed in extended precision from the caller's data, the solver's scaling vectors and the documented penalties. Rows whose bound gap sits at the equality threshold are not judged. Polishing systems are judged through P13.")
mod("P26", LIN, 9000, 150000, {"data_views": 20000, "equilibrations_compared": 5000, "empty_rows": 100, "empty_columns": 100}, "scaled data read back after setup and every update of random histories; distinct = (family, settings, history)", "Reads the solver's scaled data and scaling vectors; compares with the caller's data and, when no norm sits on a threshold, with an extended-precision equilibration.")
mod("P06", LIN, 12000, 200000, {"indefinite_systems": 1000, "definite_systems": 1000, "refused_updates": 300, "refused_setups": 300, "recoveries": 500}, "convex and indefinite cost matrices at setup and through updates; distinct = (family, size, settings)", "Inertia decided by an eigenvalue computation on the dense reduced matrix with a relative margin of 1e-6; systems inside the margin are not judged.")
POL = ["history.cpp", "p_polish.cpp"]
mod("P13", POL, 12000, 200000, {"solves": 10000, "successes": 2000, "models": 2000, "polished_points_compared": 1000, "acceptance_decisions": 1500, "unpolished_comparisons": 1000}, "solvable, degenerate and infeasible problems with varied regularisation and refinement, 1-3 solves; distinct = (family, size, settings)", "A twin solver without polishing supplies the point before polishing; with the direct solver a long-double model of the reduced system supplies the point after. Ill-conditioned reduced systems (predicted error above 1e-3) and active-set ties are only judged by the twin.")
VER = ["history.cpp", "p_verdict.cpp"]
mod("P05", VER, 3000, 60000, {"strict_problems": 3000, "infeasible_problems": 2000, "unbounded_problems": 2000, "wrong_verdict_probes": 3000}, "well-scaled strongly convex, infeasible and unbounded problems with mild settings, and adversarial settings for wrong verdicts; distinct = (family, size, settings)", "The classes are defined by the generators: strongly convex problems with known optimum, problems with an embedded infeasibility certificate of margin at least 0.5, problems with an embedded descent direction.")
PLAN["P31"] = dict(level="exploration", note="Twin solvers on well-posed problems; agreement is judged through the known optimum and strong convexity modulus, verdict classes must be equal.", rule="strict, infeasible and unbounded problems, random CG settings, 1-3 rounds of updates; distinct = (family, size, settings)", parts=[part("mkl", VER, 1200, 20000)], need={"twin_solves": 5000, "solved_pairs": 2000, "cg_settings_updates": 500})
PLAN["P30"] = dict(level="exploration", note="Outcome oracles of P01-P04 in each build, the iteration model of P25 for the double-precision builds (which ties them to the same reference as the default build), update histories in all of them. Single precision is judged on well-scaled problems with tolerances no tighter than 1e-3.", rule="problems, settings and short update histories in each build; distinct = (family, size, settings, history)",
  parts=[part("blt", VER, 400, 6000), part("blt_i32", VER, 400, 6000), part("blt_f32", VER, 600, 6000), part("mkl_noprof", VER, 400, 6000), part("blt_i32", MOD, 1500, 20000, prop="P25"), part("mkl_noprof", MOD, 1500, 20000, prop="P25"), part("blt_i32", HIST, 1500, 20000, prop="P07")], need={"solves": 10000, "optimality_verdicts": 3000})

MEM = ["history.cpp", "p_mem.cpp"]
PLAN["P17"] = dict(level="exploration", note="AddressSanitizer and UndefinedBehaviorSanitizer on both backends with every library allocation (including MKL's allocator entry points) in exact-size tracked blocks filled with signalling garbage; MemorySanitizer on the built-in backend. The closed MKL library itself is not instrumented.", rule="random problem shapes (including empty and degenerate), settings and API histories with rejected calls and failed setups; distinct = setups plus call sequences",
  parts=[part("mkl_asan", MEM, 16000, 200000), part("blt_asan", MEM, 20000, 300000), part("blt_msan", MEM, 5000, 80000)], need={"api_calls": 30000, "leak_checks": 8000, "rejected_calls": 2000, "cleanups": 8000})
PLAN["P18"] = dict(level="exploration", note="Every allocation index of each generated scenario fails once; failing from that index on is sampled one in three in the quick tier and complete in the thorough tier. Allocations inside the closed MKL library are not failed.", rule="random small problems, settings and call sequences, each with every allocation failing; distinct = scenarios",
  parts=[part("mkl_asan", MEM, 320, 4000), part("blt_asan", MEM, 320, 4000)], need={"injected_failures": 5000})
PLAN["P35"] = dict(level="exploration", note="The annotation entry points are provided by the harness, which keeps the section stack.", rule="random problems, settings and API histories including failing ones; distinct = setups plus call sequences",
  parts=[part("mkl_ann", MEM, 24000, 400000), part("blt_ann", MEM, 16000, 300000)], need={"balance_checks": 30000, "failed_calls": 200})

SIGS = ["history.cpp", "p_signal.cpp"]
PLAN["P19"] = dict(level="exploration", note="Signals are raised synchronously at a chosen iteration of the real solve (before or after its linear solve), asynchronously from a helper thread at random instants, and once for several concurrent solves. The disposition and mask are read back from the kernel.", rule="problem, settings, prior history, disposition and iteration of the signal; distinct = those tuples",
  parts=[part("mkl", SIGS, 12000, 200000, case_limit=40), part("blt", SIGS, 6000, 100000, case_limit=40)], need={"interrupts": 3000, "resumed_twins": 300, "cold_twins": 500, "concurrent_interrupts": 50, "disposition_checks": 10000, "async_interrupted": 100})
PLAN["P16"] = dict(level="exploration", note="ThreadSanitizer watches every access of the library's own code (the closed MKL library is not instrumented); results of every call are compared bitwise with a sequential run of the same history.", rule="2-6 threads with random problems, settings, histories and injected delays; distinct = those tuples",
  parts=[part("mkl_tsan", SIGS, 700, 10000), part("blt_tsan", SIGS, 900, 12000), part("mkl", SIGS, 2000, 30000)], need={"concurrent_rounds": 1000, "compared_calls": 20000})

VAL = ["history.cpp", "p_valid.cpp"]
PLAN["P20"] = dict(level="exploration", note="Limits are those of the documentation; values where documentation and code disagree (zero infeasibility tolerances) and NaN are not judged. Acceptance of extreme but valid values only demands that validation does not refuse them.", rule="settings fields at, just below and just above each limit, alone and combined with other valid settings; structural faults at random places of random data; distinct = the faults and settings used",
  parts=[part("mkl_trk", VAL, 60000, 3000000), part("blt_trk", VAL, 40000, 2000000), part("mkl_noprof", VAL, 10000, 300000)], need={"refusals": 4000, "accepted_sets": 2000, "solves": 600})
PLAN["P21"] = dict(level="exploration", note="Failed setups are produced by non-convex data and by failing allocations at random places.", rule="all error codes and random unknown ones, null, zeroed and incompletely set up solvers; distinct = problems and settings behind them",
  parts=[part("mkl_trk", VAL, 30000, 1500000), part("blt_trk", VAL, 20000, 1000000)], need={"guard_checks": 30000, "failed_setups_with_handle": 600, "message_checks": 3000, "dimension_checks": 900})
PLAN["P22"] = dict(level="exploration", note="Contents compared entry by entry with dense definitions; ownership through exact-size blocks, AddressSanitizer and the tracking allocator.", rule="random dimensions 0-40, densities, orders of entries; distinct = dimension pairs",
  parts=[part("mkl_asan", VAL, 25000, 800000), part("blt_asan", VAL, 25000, 800000)], need={"matrices_checked": 20000, "ownership_checks": 8000, "leak_checks": 2000})

PRT = ["history.cpp", "p_print.cpp"]
PLAN["P27"] = dict(level="exploration", note="Everything written to standard output and error is captured around each call. A printed row of an earlier iteration is compared with a fresh solver stopped there.", rule="problem, settings, history and where printing is toggled; distinct = those tuples",
  parts=[part("mkl", PRT, 12000, 300000), part("blt", PRT, 8000, 200000), part("mkl_noprof", PRT, 2000, 40000)], need={"summaries": 10000, "rows_verified": 500, "twin_compares": 20000, "quiet_calls": 40000, "header_facts": 100000, "toggled_summaries": 2000})

TIM = ["history.cpp", "p_time.cpp"]
PLAN["P28"] = dict(level="exploration", note="In the *_clk parts the library reads a clock that only moves when the monitor lets a delay happen (in a linear solve, a factorisation update or an allocation), so times and limits are compared exactly; the stock part sleeps on the real clock and uses bounds that do not depend on the load.", rule="problem, settings, limit, delays and history; distinct = those tuples",
  parts=[part("mkl_clk", TIM, 24000, 600000), part("blt_clk", TIM, 16000, 400000), part("mkl", TIM, 1500, 20000)], need={"time_limits": 5000, "expired": 5000, "exact_times": 20000, "update_times": 10000, "polish_times": 500, "delays": 100000})
PLAN["P23"] = dict(level="exploration", note="Each kernel call is compared with its definition in long double, with an error allowance of a few ulps per term; inputs and the memory around outputs are watched. NaN inputs and values exactly at the infinity threshold are not generated; aliasing only as the solver uses it.", rule="shape of the operands per kernel; distinct = vector lengths and matrix (rows, columns, entries, triangle) tuples",
  parts=[part("mkl", ["p_kernels.cpp"], 120000, 6000000), part("mkl_asan", ["p_kernels.cpp"], 20000, 500000), part("blt", ["p_kernels.cpp"], 120000, 6000000), part("blt_asan", ["p_kernels.cpp"], 20000, 500000), part("blt_f32", ["p_kernels.cpp"], 40000, 1000000)], need={"entries": 1000000, "poisoned_products": 500, "empty_products": 500, "op:dot_prod_signed": 500, "op:ew_bounds_type": 500, "op:Axpy_sym": 1000, "op:Atxpy": 1000, "op:submatrix_byrows": 500})
DER = ["history.cpp", "p_deriv.cpp"]
PLAN["P33"] = dict(level="exploration", note="Problems are built with a known strictly complementary solution and well-conditioned active constraints; the reference is an adjoint computed in long double from the caller's data, itself compared with central differences of the solution map.", rule="problem shape and active set; distinct = those tuples",
  parts=[part("blt", DER, 6000, 150000), part("blt_asan", DER, 1500, 20000), part("blt_i32", DER, 2000, 50000)], need={"derivatives": 3000, "finite_differences": 500, "active_rows": 1000, "equality_rows": 1000, "dual_only_gradients": 300})
CGN = ["history.cpp", "p_codegen.cpp"]
PLAN["P32"] = dict(level="exploration", note="The generated workspace is compiled with gcc against the generated configuration header and the sources the build copies for generated code, loaded next to the original solver and driven by the same calls. QDLDL comes from shim/qdldl. Profiling, interrupts and derivatives in generated code are not covered (the build provides no sources for them).", rule="generation options, problem shape and history before generation; distinct = those tuples",
  parts=[part("blt", CGN, 900, 30000), part("blt_asan", CGN, 200, 4000)], need={"programs_compiled": 500, "twin_solves": 500, "outcome_solves": 100, "refused_after_failed_setup": 10, "example_programs_run": 20, "write_failures": 20})
