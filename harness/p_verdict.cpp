// Right verdicts on well-posed problems (P05), direct vs indirect (P31), other builds (P30).
#include "history.h"
#include "refadmm.h"
static L strong_convexity(const Prob& p) {   // smallest eigenvalue of P by inverse-free bisection on Cholesky
  I n = p.n; std::vector<VL> P(n, VL(n, 0)); L tr = 0; for (I j = 0; j < n; j++) for (I k = p.P.p[j]; k < p.P.p[j + 1]; k++) { I i = p.P.i[k]; P[i][j] += p.P.x[k]; if (i != j) P[j][i] += p.P.x[k]; else tr += p.P.x[k]; }
  auto pd = [&](L s) { std::vector<VL> K(n, VL(n, 0)); for (I i = 0; i < n; i++) for (I j = 0; j <= i; j++) { L t = P[i][j] - (i == j ? s : 0); for (I k = 0; k < j; k++) t -= K[i][k] * K[j][k]; if (i == j) { if (t <= 0) return false; K[i][i] = sqrtl(t); } else K[i][j] = t / K[j][j]; } return true; };
  L lo = 0, hi = tr + 1; if (!pd(0)) return 0; for (int t = 0; t < 60; t++) { L md = (lo + hi) / 2; (pd(md) ? lo : hi) = md; } return lo;
}
// settings a user would vary on a well-posed problem, with the default iteration limit
static OSQPSettings mild(Rng& r, bool indirect_ok = true) {
  OSQPSettings s = default_settings(); I caps = osqp_capabilities();
  if (indirect_ok && (caps & OSQP_CAPABILITY_INDIRECT_SOLVER) && r.chance(0.3)) { s.linsys_solver = OSQP_INDIRECT_SOLVER; s.cg_precond = r.chance(0.7) ? OSQP_DIAGONAL_PRECONDITIONER : OSQP_NO_PRECONDITIONER; s.cg_max_iter = r.pick(VI{50, 200}); s.cg_tol_fraction = (F)r.uni(0.05, 0.3); s.cg_tol_reduction = r.irange(1, 12); }
  s.scaling = r.pick(VI{0, 1, 5, 10, 10, 20}); if (r.chance(0.5)) s.rho = (F)r.logu(0.02, 5); if (r.chance(0.4)) s.alpha = (F)r.uni(1, 1.8); if (r.chance(0.3)) s.sigma = (F)r.logu(1e-8, 1e-4);
  s.adaptive_rho = 1; s.adaptive_rho_interval = r.pick(VI{25, 50, 50, 100}); s.check_termination = r.pick(VI{1, 5, 10, 25, 25}); s.check_dualgap = r.chance(0.6); s.polishing = r.chance(0.3); s.scaled_termination = r.chance(0.1);
  s.eps_abs = s.eps_rel = (F)r.pick(std::vector<double>{1e-3, 1e-4, 1e-5}); if (r.chance(0.2)) { s.rho_is_vec = 0; s.eps_abs = s.eps_rel = (F)1e-3; }
  if (sizeof(F) == 4) { s.eps_abs = s.eps_rel = (F)1e-3; s.check_dualgap = 0; s.polishing = 0; if (s.sigma < 1e-6) s.sigma = (F)1e-6; }
  return s;
}
static void close_to_optimum(const Prob& pb, const OSQPSettings& st, const Solver& S, L lam, const char* tag) {
  // lam |dx|^2 <= r'dx - (y-y*)'A(x-x*), and the last term is bounded by the violation and complementarity of the returned pair
  Resid R = residuals(pb, S.x(), S.y()); VF x = S.x(), y = S.y(); L n2 = 0, r2 = 0, dy1 = 0; for (I j = 0; j < pb.n; j++) { n2 += ((L)x[j] - pb.xs[j]) * ((L)x[j] - pb.xs[j]); r2 += R.dres[j] * R.dres[j]; }
  L cross = 0; VL as = mulA(pb.A, pb.xs); for (I i = 0; i < pb.m; i++) { L d = R.Ax[i] - as[i]; cross += ((L)y[i] - pb.ys[i]) * d; dy1 += fabsl((L)y[i] - pb.ys[i]); }
  L tol = 0; { VF z = work_vec_z(S.s); L mz = R.nAx; tol = st.eps_abs + st.eps_rel * mz; (void)z; } if (st.scaled_termination) tol *= 10;
  CHECK(cross >= -(4 * tol + 1e-9L) * (dy1 + 1e-9L) * std::max<I>(1, pb.m), "monotonicity", "%s: (y-y*)'A(x-x*)=%.6Lg", tag, cross);
  L dist = sqrtl(n2), bound = sqrtl(r2) / lam + sqrtl(std::max<L>(-cross, 0) / lam);
  CHECK(dist <= 1.01L * bound + 1e-7L * (1 + ninf(pb.xs)), "far_from_optimum", "%s: distance %.6Lg, residuals allow %.6Lg", tag, dist, bound);
  // and in absolute terms: tolerances times a moderate condition number
  L ymax = 1 + ninf(pb.ys), amax = 1; for (auto e : pb.A.x) amax = std::max(amax, fabsl((L)e)); L dtol = st.eps_abs + st.eps_rel * std::max({R.nAty, R.nPx, R.nq}); if (st.scaled_termination) dtol *= 30;
  L lim = sqrtl((L)pb.n) * dtol / lam + sqrtl((L)pb.m * (dy1 + ymax) * 4 * tol / lam); CHECK(dist <= 2 * lim + 1e-6L, "far_in_absolute_terms", "%s: distance %.6Lg from the optimum, tolerances allow %.6Lg", tag, dist, lim);
}
// A first-order method has a tail: a rare instance of a class may run into the iteration limit. Verdicts that are missed
// (not contradicted) are therefore judged per batch of instances: MISS_LIMIT or more of one class in a batch is a violation.
static const int BATCH = 25;
struct Misses { int slow = 0; std::map<std::string, std::vector<std::string>> m;
  void add(const char* cls, const std::string& msg) { m[cls].push_back(msg + " <" + G.note + ">"); EV((std::string("missed:") + cls).c_str()); }
  void judge() { for (auto& e : m) CHECK(e.second.size() < 4, e.first.c_str(), "%d instances of one batch; first: %.900s", (int)e.second.size(), e.second[0].c_str()); CHECK(slow <= BATCH, "indirect_slower", "%d solves of a batch of %d problems needed over twice the iterations of the direct solver", slow, BATCH); } };
static bool dinf_code(I s) { return s == OSQP_DUAL_INFEASIBLE || s == OSQP_DUAL_INFEASIBLE_INACCURATE; }
static bool pinf_code(I s) { return s == OSQP_PRIMAL_INFEASIBLE || s == OSQP_PRIMAL_INFEASIBLE_INACCURATE; }
// An infeasible problem whose cost is not strongly convex may be dual infeasible as well: either verdict is right.
// The inexact steps of the indirect solver may keep the certificate from settling: reaching the limit is not judged there.
static void missed_infeasible(Misses& M, const Prob& pb, const OSQPSettings& st, const Solver& S) {
  I s = S.status(); if (dinf_code(s) && strong_convexity(pb) < 1e-6) { EV("doubly_infeasible"); return; }
  if ((st.linsys_solver == OSQP_INDIRECT_SOLVER || sizeof(F) == 4) && s == OSQP_MAX_ITER_REACHED) { INCONC("indirect solver or single precision reached the limit on an infeasible problem"); return; }
  if (!pinf_code(s)) M.add("infeasibility_missed", strf("status %d after %d iterations", (int)s, (int)S.s->info->iter));
}
static void missed_unbounded(Misses& M, const OSQPSettings& st, const Solver& S) {
  I s = S.status(); if ((st.linsys_solver == OSQP_INDIRECT_SOLVER || sizeof(F) == 4) && s == OSQP_MAX_ITER_REACHED) { INCONC("indirect solver or single precision reached the limit on an unbounded problem"); return; }
  if (!dinf_code(s)) M.add("unboundedness_missed", strf("status %d after %d iterations", (int)s, (int)S.s->info->iter));
}
// v'A=0 and support -delta (delta >= 0.5): any x violates the bounds by delta/|v|_1, so "solved" needs at least that tolerance
static void solved_within_margin(const Prob& pb, const OSQPSettings& st, const Solver& S) {
  I s = S.status(); if (s != OSQP_SOLVED && s != OSQP_SOLVED_INACCURATE) return; if (st.scaled_termination) return;
  L v1 = 0; for (auto e : pb.w) v1 += fabsl((L)e); Resid R = residuals(pb, S.x(), S.y()); L k = s == OSQP_SOLVED ? 1 : 10, tol = k * (st.eps_abs + st.eps_rel * (R.nAx + R.viol)); EV("infeasible_accepted_by_tolerance");
  CHECK(tol * 1.01L >= 0.49L / v1, "infeasible_reported_solved", "status %d after %d iterations: every point violates the bounds by %.6Lg, tolerance %.6Lg", (int)s, (int)S.s->info->iter, 0.5L / v1, tol);
}
#define MISS(cond, cls, ...) do { if (!(cond)) M.add(cls, strf(__VA_ARGS__)); } while (0)
static void P05_one(Rng& r, int t, Misses& M) {
  GenOpt o; o.nmax = 10; o.mmax = 14;
  if (t <= 1) {         // well-conditioned strongly convex: solved within the default limit, near the optimum
    Prob pb = gen_strict(r, o); OSQPSettings st = mild(r); G.note = prob_str(pb) + " | " + settings_str(st); if (G.verbose) G.note += " || " + prob_dump(pb); SIG(G.note);
    L lam = strong_convexity(pb); Solver S(pb, st); CHECK(S.flag == 0, "setup_failed", "%d", (int)S.flag); if (S.flag) return; S.solve(); EV("strict_problems");
    MISS(S.status() == OSQP_SOLVED, "not_solved", "strongly convex problem: status %d after %d iterations", (int)S.status(), (int)S.s->info->iter);
    if (S.status() == OSQP_SOLVED) { if (sizeof(F) == 8) close_to_optimum(pb, st, S, lam, "strict"); EV(strf("iterations<%d", S.s->info->iter <= 100 ? 101 : S.s->info->iter <= 500 ? 501 : S.s->info->iter <= 1500 ? 1501 : 4001).c_str()); }
  } else if (t == 2) {  // clearly infeasible
    Prob pb = gen_pinf(r, o); OSQPSettings st = mild(r); st.eps_prim_inf = (F)1e-4; G.note = prob_str(pb) + " | " + settings_str(st); if (G.verbose) G.note += " || " + prob_dump(pb); SIG(G.note);
    Solver S(pb, st); if (S.flag) { VIOL("setup_failed", strf("%d", (int)S.flag)); return; } S.solve(); EV("infeasible_problems"); EV(strf("pinf_status:%d", (int)S.status()).c_str());
    solved_within_margin(pb, st, S);
    missed_infeasible(M, pb, st, S);
  } else if (t == 3) {  // clearly unbounded
    Prob pb = gen_dinf(r, o); OSQPSettings st = mild(r); st.eps_dual_inf = (F)1e-4; G.note = prob_str(pb) + " | " + settings_str(st); if (G.verbose) G.note += " || " + prob_dump(pb); SIG(G.note);
    Solver S(pb, st); if (S.flag) { VIOL("setup_failed", strf("%d", (int)S.flag)); return; } S.solve(); EV("unbounded_problems"); EV(strf("dinf_status:%d", (int)S.status()).c_str());
    missed_unbounded(M, st, S);
  } else {              // never the wrong verdict, whatever the settings
    OSQPSettings st = rand_settings(r); if (st.eps_prim_inf > 1e-4) st.eps_prim_inf = (F)1e-4; if (st.eps_dual_inf > 1e-4) st.eps_dual_inf = (F)1e-4; st.scaled_termination = 0;
    Prob pb = gen_strict(r, o); int w = r.irange(0, 2); if (st.max_iter > 1000) st.max_iter = 1000;
    if (w == 0) { for (I i = 0; i < pb.m; i++) { pb.l[i] = std::max<F>(pb.l[i] - (F)0.1, -INF); pb.u[i] = std::min<F>(pb.u[i] + (F)0.1, INF); } pb.fam = "strictly-feasible"; if (r.chance(0.4)) { for (auto& e : pb.P.x) e = 0; pb.fam += "-lp"; } }
    if (w == 2) { pb = gen_pinf(r, o); }
    G.note = prob_str(pb) + " | " + settings_str(st); if (G.verbose) G.note += " || " + prob_dump(pb); SIG(G.note);
    Solver S(pb, st); if (S.flag) { INCONC("setup refused"); return; } S.solve(); EV("wrong_verdict_probes"); I s = S.status();
    if (w == 0) { EV("strictly_feasible"); CHECK(s != OSQP_PRIMAL_INFEASIBLE && s != OSQP_PRIMAL_INFEASIBLE_INACCURATE, "feasible_called_infeasible", "status %d after %d iterations", (int)s, (int)S.s->info->iter); }
    if (w == 1) { EV("strongly_convex"); CHECK(s != OSQP_DUAL_INFEASIBLE && s != OSQP_DUAL_INFEASIBLE_INACCURATE, "convex_called_unbounded", "status %d after %d iterations", (int)s, (int)S.s->info->iter); CHECK(s != OSQP_NON_CVX, "convex_called_nonconvex", "status %d", (int)s); }
    if (w == 2 && st.eps_abs <= 1e-3 && st.eps_rel <= 1e-3) { EV("infeasible_with_margin"); solved_within_margin(pb, st, S); }
  }
}
PROPERTY(P05) { Misses M; int t = r.irange(0, 5); for (int k = 0; k < BATCH; k++) P05_one(r, t, M); M.judge(); }
// ------------------------------------------------------------------ direct vs indirect
static void P31_one(Rng& r, int t, Misses& M) {
  GenOpt o; o.nmax = 12; o.mmax = 16; Prob pb = t <= 2 ? gen_strict(r, o) : t == 3 ? gen_pinf(r, o) : gen_dinf(r, o);
  OSQPSettings st = mild(r, false); OSQPSettings si = st; si.linsys_solver = OSQP_INDIRECT_SOLVER;
  auto cg = [&](OSQPSettings& s) { s.cg_precond = r.chance(0.5) ? OSQP_DIAGONAL_PRECONDITIONER : OSQP_NO_PRECONDITIONER; s.cg_max_iter = r.pick(VI{60, 100, 300}); s.cg_tol_fraction = (F)r.uni(0.02, 0.4); s.cg_tol_reduction = r.irange(1, 20); };
  cg(si); L lam = t <= 2 ? strong_convexity(pb) : 0;
  G.note = prob_str(pb) + " | " + settings_str(si) + strf(" cg=%d/%d/%g/%d", (int)si.cg_precond, (int)si.cg_max_iter, (double)si.cg_tol_fraction, (int)si.cg_tol_reduction); if (G.verbose) G.note += " || " + prob_dump(pb); SIG(G.note);
  Solver D(pb, st), X(pb, si); CHECK(!D.flag && !X.flag, "setup_failed", "%d %d", (int)D.flag, (int)X.flag); if (D.flag || X.flag) return;
  int rounds = r.irange(1, 3);
  for (int k = 0; k < rounds; k++) {
    if (k) {      // change settings, data, penalty; both solvers alike
      if (r.chance(0.7)) { OSQPSettings n = *X.s->settings; cg(n); I f = osqp_update_settings(X.s, &n); CHECK(!f, "cg_settings_refused", "%d", (int)f); EV("cg_settings_updates"); }
      if (r.chance(0.4) && t <= 2) { F rho = (F)r.logu(0.05, 5); osqp_update_rho(D.s, rho); osqp_update_rho(X.s, rho); EV("rho_updates"); }
      if (r.chance(0.5) && t <= 2) { pb.xs = near(r, pb.xs, 0.3); VL ax = mulA(pb.A, pb.xs); for (I i = 0; i < pb.m; i++) { L w = pb.u[i] - pb.l[i]; F a = (F)ax[i]; if (pb.ys[i] > 0 && w > 0) { F d = pb.l[i] > -INF_THR ? pb.u[i] - pb.l[i] : 0; pb.u[i] = a; if (d > 0) pb.l[i] = a - d; } else if (pb.ys[i] < 0 && w > 0) { F d = pb.u[i] < INF_THR ? pb.u[i] - pb.l[i] : 0; pb.l[i] = a; if (d > 0) pb.u[i] = a + d; } else if (w == 0) pb.l[i] = pb.u[i] = a; else { if (pb.l[i] > -INF_THR) pb.l[i] = std::min<F>(pb.l[i], a - (F)0.2); if (pb.u[i] < INF_THR) pb.u[i] = std::max<F>(pb.u[i], a + (F)0.2); } }
        VL px = mulP(pb.P, pb.xs), ay = mulAt(pb.A, pb.ys); for (I j = 0; j < pb.n; j++) pb.q[j] = (F)-(px[j] + ay[j]);
        I f = osqp_update_data_vec(D.s, pb.q.data(), pb.l.data(), pb.u.data()), g = osqp_update_data_vec(X.s, pb.q.data(), pb.l.data(), pb.u.data()); CHECK(f == g, "update_codes", "%d vs %d", (int)f, (int)g); if (f || g) return; EV("data_updates"); }
      if (r.chance(0.5)) { osqp_cold_start(D.s); osqp_cold_start(X.s); }
    }
    I f = D.solve(), g = X.solve(); (void)f; (void)g; EV("twin_solves"); I a = D.status(), b = X.status(); EV(strf("status:%d/%d", (int)a, (int)b).c_str());
    auto cls = [](I s) { return s == OSQP_PRIMAL_INFEASIBLE || s == OSQP_PRIMAL_INFEASIBLE_INACCURATE ? 3 : s == OSQP_DUAL_INFEASIBLE || s == OSQP_DUAL_INFEASIBLE_INACCURATE ? 5 : (int)s; };
    if (t <= 2 && !st.rho_is_vec && (a == OSQP_MAX_ITER_REACHED || b == OSQP_MAX_ITER_REACHED)) { INCONC("iteration limit with a single penalty for all rows"); return; }
    if (t <= 2) MISS(a == OSQP_SOLVED && b == OSQP_SOLVED, "verdicts_differ", "well-posed problem: direct %d (%d iterations), indirect %d (%d iterations)", (int)a, (int)D.s->info->iter, (int)b, (int)X.s->info->iter);
    else { CHECK(b != OSQP_NON_CVX, "contradictory", "direct %d, indirect %d on an infeasible or unbounded problem", (int)a, (int)b); if (t == 3) solved_within_margin(pb, si, X);
      if (t == 3) missed_infeasible(M, pb, si, X); else missed_unbounded(M, si, X); }
    if (cls(a) != cls(b)) { oracle_outcome(pb, si, X, "indirect", O_ALL); return; }
    oracle_outcome(pb, si, X, "indirect", O_ALL);
    if (a == OSQP_SOLVED && t <= 2) { close_to_optimum(pb, st, D, lam, "direct"); close_to_optimum(pb, si, X, lam, "indirect"); EV("solved_pairs"); if (X.s->info->iter <= 2 * D.s->info->iter + 50) EV("comparable_iterations"); else { EV("slower_indirect"); M.slow++; } }
  }
}
PROPERTY(P31) { Misses M; int t = r.irange(0, 4); for (int k = 0; k < BATCH; k++) P31_one(r, t, M); M.judge(); }
// ------------------------------------------------------------------ other builds
static void P30_one(Rng& r, int t, Misses& M) {
  GenOpt o; o.nmax = 10; o.mmax = 12; bool f32 = sizeof(F) == 4;
  Prob pb = t <= 2 ? gen_strict(r, o) : t == 3 ? gen_pinf(r, o) : t == 4 ? gen_dinf(r, o) : t == 5 ? gen_struct(r) : f32 ? gen_strict(r, o) : gen_solvable(r, o); OSQPSettings st = f32 || r.chance(0.5) ? mild(r) : rand_settings(r);
  if (f32) { st.eps_abs = (F)1e-2; st.eps_rel = (F)1e-3; st.eps_prim_inf = (F)1e-3; st.eps_dual_inf = (F)1e-3; st.sigma = (F)1e-4; st.adaptive_rho = 1; st.scaled_termination = 0; if (st.rho > 1) st.rho = 1; }
  Model m0{pb, st}, m = m0; std::vector<Op> ops; G.note = prob_str(pb) + " | " + settings_str(st);
  Solver S(pb, st); if (S.flag) { if (t <= 2 || (t <= 4 && !f32)) VIOL("setup_failed", strf("%d", (int)S.flag)); return; } int len = r.irange(1, 4);
  for (int k = 0; k < len; k++) {
    Op op = k == 0 || k == len - 1 ? op_solve() : gen_op(r, m, M_SOLVE | M_VEC | M_MAT | M_RHO | M_COLD); ops.push_back(op); G.note = prob_str(m0.pb) + " | " + settings_str(st) + " | " + ops_str(ops); if (G.verbose) G.note += " || " + prob_dump(m0.pb); SIG(G.note);
    model_apply(m, op); I f = op_apply(S, op); if (f && op.k != SOLVE) { EV("refused"); return; } if (op.k != SOLVE) continue;
    EV("solves"); EV(strf("status:%d", (int)S.status()).c_str()); m.pb.hasopt = false;
    if (!f32) oracle_outcome(m.pb, m.st, S, "build", O_ALL); else {
      I s = S.status(); VF x = S.x(), y = S.y();
      if (s == OSQP_SOLVED) { Resid R = residuals(m.pb, x, y); L a = 1e-5L; CHECK(allfinite(x) && allfinite(y), "nonfinite", "single precision"); CHECK(R.viol <= 1.1L * (st.eps_abs + st.eps_rel * std::max(R.nAx, (L)1)) + 30 * a * (R.eAx + 1), "primal_tol", "single precision: violation %.6Lg", R.viol); CHECK(R.dual <= 1.1L * (st.eps_abs + st.eps_rel * std::max({R.nq, R.nAty, R.nPx})) + 30 * a * (R.eD + 1), "dual_tol", "single precision: dual residual %.6Lg", R.dual);
        CHECK(fabsl(S.s->info->obj_val - R.obj) <= 1e-4L * (R.eO + 1), "obj_val", "single precision: objective %.9g, recomputed %.9Lg", (double)S.s->info->obj_val, R.obj); EV("optimality_verdicts"); }
      if (s == OSQP_PRIMAL_INFEASIBLE) { VF v = S.pc(); VL av = mulAt(m.pb.A, v); L sup = 0; for (I i = 0; i < m.pb.m; i++) { if (v[i] > 1e-6) sup += (L)v[i] * m.pb.u[i]; else if (v[i] < -1e-6) sup += (L)v[i] * m.pb.l[i]; } CHECK(fabsl(ninf(v) - 1) < 1e-4L && ninf(av) < 3e-3L && sup < 1e-4L, "pinf_certificate", "norm %.6Lg A'v %.6Lg support %.6Lg", ninf(v), ninf(av), sup); EV("pinf_certificates"); }
      if (s == OSQP_DUAL_INFEASIBLE) { VF v = S.dc(); CHECK(fabsl(ninf(v) - 1) < 1e-4L && dotl(m.pb.q, v) < 1e-4L && ninf(mulP(m.pb.P, v)) < 3e-3L * (1 + ninf(m.pb.P.x)), "dinf_certificate", "norm %.6Lg q'v %.6Lg Pv %.6Lg", ninf(v), dotl(m.pb.q, v), ninf(mulP(m.pb.P, v))); EV("dinf_certificates"); }
    }
    if (k == 0) { I s = S.status(); bool mildset = f32; if (mildset) {
      if (t <= 2) MISS(s == OSQP_SOLVED, "not_solved", "strongly convex problem: status %d after %d iterations", (int)s, (int)S.s->info->iter);
      if (t == 3) missed_infeasible(M, pb, st, S);
      if (t == 4) missed_unbounded(M, st, S); } }
  }
}
PROPERTY(P30) { Misses M; int t = r.irange(0, 7); for (int k = 0; k < BATCH; k++) P30_one(r, t, M); M.judge(); }
