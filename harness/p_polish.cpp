// Polishing (P13): a twin without polishing gives the point before; an extended-precision model of the
// documented reduced system gives the point after.
#include "history.h"
#include "refadmm.h"
static bool gauss(std::vector<VL> K, std::vector<VL>& X) {     // X := K^-1 X, X given by columns
  I N = (I)K.size(); for (I p = 0; p < N; p++) { I b = p; for (I i = p; i < N; i++) if (fabsl(K[i][p]) > fabsl(K[b][p])) b = i; if (K[b][p] == 0) return false; std::swap(K[p], K[b]); for (auto& c : X) std::swap(c[p], c[b]);
    for (I i = p + 1; i < N; i++) { L f = K[i][p] / K[p][p]; if (f == 0) continue; for (I j = p; j < N; j++) K[i][j] -= f * K[p][j]; for (auto& c : X) c[i] -= f * c[p]; } }
  for (auto& c : X) for (I i = N - 1; i >= 0; i--) { for (I j = i + 1; j < N; j++) c[i] -= K[i][j] * c[j]; c[i] /= K[i][i]; } return true;
}
static Prob degenerate(Rng& r, Prob p) {   // redundant rows: duplicates, sums, many bounds touching the optimum
  if (!p.m || !p.hasopt) return p; VL ax = mulA(p.A, p.xs); int k = r.irange(1, 3); Dense A(p.m + k, std::vector<double>(p.n, 0));
  for (I j = 0; j < p.n; j++) for (I t = p.A.p[j]; t < p.A.p[j + 1]; t++) A[p.A.i[t]][j] = p.A.x[t];
  for (int t = 0; t < k; t++) { I a = r.irange(0, (int)p.m - 1), b = r.irange(0, (int)p.m - 1); double s = r.chance(0.5) ? 0 : 1; for (I j = 0; j < p.n; j++) A[p.m + t][j] = A[a][j] + s * A[b][j]; F v = (F)(ax[a] + s * ax[b]); bool up = r.chance(0.5), tight = r.chance(0.6); p.u.push_back(up ? (tight ? v : (F)(v + 1)) : INF); p.l.push_back(up ? -INF : (tight ? v : (F)(v - 1))); p.ys.push_back(0); }
  p.m += k; p.A = csc_from_dense(A, p.m, p.n, false); p.fam += "-degenerate"; p.hasopt = false; return p;
}
PROPERTY(P13) {
  GenOpt o; o.nmax = 10; o.mmax = 12; int t = r.irange(0, 9);
  Prob pb = t < 4 ? gen_strict(r, o) : t < 7 ? gen_solvable(r, o) : gen_any(r, o); if (r.chance(0.25)) pb = degenerate(r, pb);
  OSQPSettings st = rand_settings(r, r.chance(0.8)); st.polishing = 1; st.max_iter = r.pick(VI{50, 500, 4000}); if (r.chance(0.4)) st.delta = (F)r.logu(1e-8, 1e-2); if (r.chance(0.5)) st.polish_refine_iter = r.irange(0, 6);
  if (r.chance(0.3)) { st.eps_abs = (F)r.logu(1e-3, 1e-1); st.eps_rel = (F)1e-3; } if (st.rho > 1e4 || st.rho < 1e-5) st.rho = (F)0.1; if (st.adaptive_rho == 2) st.adaptive_rho = 1; if (st.adaptive_rho && !st.adaptive_rho_interval) st.adaptive_rho_interval = 50;
  OSQPSettings s0 = st; s0.polishing = 0;
  G.note = prob_str(pb) + " | " + settings_str(st) + strf(" delta=%g refine=%d", (double)st.delta, (int)st.polish_refine_iter); if (G.verbose) G.note += " || " + prob_dump(pb);
  SIG(G.note);
  Solver A(pb, st), B(pb, s0); if (A.flag || B.flag) { CHECK(A.flag == B.flag, "setup", "%d vs %d", (int)A.flag, (int)B.flag); return; }
  int rounds = r.irange(1, 3);
  for (int k = 0; k < rounds; k++) {
    if (k) { osqp_cold_start(A.s); osqp_cold_start(B.s);
      if (r.chance(0.6)) { OSQPSettings n = *A.s->settings; n.delta = (F)r.logu(1e-8, 1e-2); n.polish_refine_iter = r.irange(0, 6); n.polishing = r.chance(0.85); OSQPSettings n0 = n; n0.polishing = 0; I f = osqp_update_settings(A.s, &n), g = osqp_update_settings(B.s, &n0); CHECK(!f && !g, "update_settings", "%d %d", (int)f, (int)g); EV("settings_updates"); }
      if (r.chance(0.5)) { VF q = near(r, pb.q, 0.1); pb.q = q; osqp_update_data_vec(A.s, q.data(), nullptr, nullptr); osqp_update_data_vec(B.s, q.data(), nullptr, nullptr); EV("data_updates"); } }
    const OSQPSettings& S = *A.s->settings; I fb = B.solve(), fa = A.solve(); EV("solves", 2); const OSQPInfo &a = *A.s->info, &b = *B.s->info;
    EV(strf("polish_status:%d", (int)a.status_polish).c_str());
    if (fb) return;
    if (fa) { CHECK(a.status_polish == OSQP_POLISH_LINSYS_ERROR || a.status_polish == OSQP_POLISH_FAILED, "solve_failed", "returned %d with polish status %d", (int)fa, (int)a.status_polish); }
    CHECK(b.status_polish == OSQP_POLISH_NOT_PERFORMED, "off_but_reported", "polish status %d with polishing off", (int)b.status_polish);
    CHECK(a.status_val == b.status_val && a.iter == b.iter && a.rho_updates == b.rho_updates && a.rho_estimate == b.rho_estimate, "outcome_changed", "status %d iter %d with polishing, %d %d without", (int)a.status_val, (int)a.iter, (int)b.status_val, (int)b.iter);
    bool expect = S.polishing && b.status_val == OSQP_SOLVED;
    CHECK((a.status_polish == OSQP_POLISH_NOT_PERFORMED) == !expect, "attempted", "polish status %d after status %d", (int)a.status_polish, (int)b.status_val);
    if (a.status_polish != OSQP_POLISH_SUCCESS) {
      EV("unpolished_comparisons"); Snap sa = snap(A, 0), sb = snap(B, 0); sa.info.status_polish = sb.info.status_polish = 0; std::string d = snap_diff(sa, sb, 0, true);
      CHECK(d.empty(), "unpolished_result_changed", "polish status %d, with/without polishing: %s", (int)a.status_polish, d.c_str());
      if (work_vec_x(A.s) != work_vec_x(B.s) || work_vec_y(A.s) != work_vec_y(B.s) || work_vec_z(A.s) != work_vec_z(B.s)) VIOL("iterates_changed", strf("polish status %d", (int)a.status_polish));
    } else {
      EV("successes");
      CHECK((a.prim_res <= b.prim_res || a.prim_res < 1e-10) && (a.dual_res <= b.dual_res || a.dual_res < 1e-10), "not_improved", "primal %.6g -> %.6g, dual %.6g -> %.6g", (double)b.prim_res, (double)a.prim_res, (double)b.dual_res, (double)a.dual_res);
      CHECK(!(a.prim_res > b.prim_res && a.dual_res > b.dual_res), "both_worse", "both residuals grew");
      CHECK(fabsl((L)a.rel_kkt_error - std::max({(L)a.prim_res, (L)a.dual_res, (L)a.duality_gap})) <= 1e-12L * (1 + fabsl((L)a.rel_kkt_error)) , "kkt_error", "rel_kkt_error %g", (double)a.rel_kkt_error);
      oracle_outcome(pb, S, A, "polished", O_INFO);
    }
    if (!expect || S.linsys_solver != OSQP_DIRECT_SOLVER) continue;
    // model
    ScalingView sc = scaling_of(B.s); OSQPSettings ms = S; RefADMM R(pb, ms, sc); I n = pb.n, m = pb.m;
    VF x0 = work_vec_x(B.s), z0 = work_vec_z(B.s), y0 = work_vec_y(B.s), l = data_l(B.s), u = data_u(B.s); VI act(m, 0); I na = 0; bool amb = false;
    for (I i = 0; i < m; i++) { L gl = (L)z0[i] - l[i] + y0[i], gu = (L)u[i] - z0[i] - y0[i]; L mag = 1e-13L * (fabsl((L)z0[i]) + fabsl((L)y0[i])); if ((gl != 0 && fabsl(gl) < mag) || (gu != 0 && fabsl(gu) < mag)) amb = true;
      if (gl < 0 || l[i] == u[i]) act[i] = -1; else if (gu < 0) act[i] = 1; na += act[i] != 0; }
    if (amb) { INCONC("active set tie"); continue; }
    CHECK((na == 0) == (a.status_polish == OSQP_POLISH_NO_ACTIVE_SET_FOUND), "active_set_status", "%d active constraints, polish status %d", (int)na, (int)a.status_polish);
    if (!na || a.status_polish == OSQP_POLISH_LINSYS_ERROR) continue;
    I N = n + na; std::vector<VL> K0(N, VL(N, 0)); VL rhs(N);
    for (I i = 0; i < n; i++) { for (I j = 0; j < n; j++) K0[i][j] = R.P[i][j]; rhs[i] = -R.q[i]; }
    I c = n; for (I i = 0; i < m; i++) if (act[i]) { for (I j = 0; j < n; j++) K0[c][j] = K0[j][c] = R.A[i][j]; rhs[c] = act[i] < 0 ? l[i] : u[i]; c++; }
    std::vector<VL> K = K0; for (I i = 0; i < N; i++) K[i][i] += (i < n ? 1 : -1) * (L)S.delta;
    std::vector<VL> inv(N, VL(N, 0)); for (I i = 0; i < N; i++) inv[i][i] = 1; if (!gauss(K, inv)) { INCONC("singular reduced system"); continue; }
    auto solve = [&](const VL& v) { VL w(N, 0); for (I i = 0; i < N; i++) for (I j = 0; j < N; j++) w[i] += inv[j][i] * v[j]; return w; };
    L kn = 0, in = 0; for (I i = 0; i < N; i++) { L s = 0, s2 = 0; for (I j = 0; j < N; j++) { s += fabsl(K[i][j]); s2 += fabsl(inv[i][j]); } kn = std::max(kn, s); in = std::max(in, s2); }
    VL s = solve(rhs); L smax = ninf(s); for (I it = 0; it < S.polish_refine_iter; it++) { VL rr = rhs; for (I i = 0; i < N; i++) for (I j = 0; j < N; j++) rr[i] -= K0[i][j] * s[j]; VL d = solve(rr); for (I i = 0; i < N; i++) s[i] += d[i]; smax = std::max(smax, ninf(s)); }
    VL x(s.begin(), s.begin() + n), z = R.mulAx(x), y(m, 0); c = n; for (I i = 0; i < m; i++) if (act[i]) y[i] = s[c++];
    for (I i = 0; i < m; i++) { L v = y[i] + z[i]; z[i] = std::min(std::max(v, (L)l[i]), (L)u[i]); y[i] = v - z[i]; }
    L amax = 0; for (auto& row : R.A) { L q = 0; for (auto e : row) q += fabsl(e); amax = std::max(amax, q); }
    L grow = 1 + amax * amax / std::max<L>(S.delta, 1e-300L) / (kn + 1e-300L); L err = 1e-15L * N * kn * in * std::min<L>(grow, 1e8L) * smax + 1e-14L * smax, ez = err * (1 + amax);
    if (err > 1e-3L * (1 + smax)) { INCONC("ill-conditioned reduced system"); continue; }
    EV("models");
    // residuals the model predicts
    R.x = x; R.y = y; R.z = z; R.xt = x; R.zt = z; R.info(); L pn = 0; for (auto& row : R.P) { L q = 0; for (auto e : row) q += fabsl(e); pn = std::max(pn, q); }
    L Emin = 1, Dmin = 1; for (auto e : sc.E) Emin = std::min(Emin, e); for (auto e : sc.D) Dmin = std::min(Dmin, e); bool un = !S.scaled_termination;
    L ep = 4 * (ez * 2) / (un ? Emin : 1), ed = 4 * (pn * err + amax * m * ez) / (un ? Dmin * R.c : 1) + 1e-13L * R.maxDu; L P0 = b.prim_res, D0 = b.dual_res;
    auto lt = [&](L v, L e, L w) { return fabsl(v - w) <= e + 1e-9L * (fabsl(v) + fabsl(w)) ? MAYBE : v < w ? YES : NO; };
    Tri p1 = lt(R.pres, ep, P0), d1 = lt(R.dres, ed, D0), p2 = P0 < 1e-10L ? lt(R.pres, ep, 1e-10L) : NO, d2 = D0 < 1e-10L ? lt(R.dres, ed, 1e-10L) : NO;
    auto AND = [](Tri a, Tri b) { return a == NO || b == NO ? NO : a == YES && b == YES ? YES : MAYBE; }; auto OR = [](Tri a, Tri b) { return a == YES || b == YES ? YES : a == NO && b == NO ? NO : MAYBE; };
    Tri ok = OR(AND(p1, d1), OR(AND(p1, d2), AND(d1, p2)));
    if (ok != MAYBE) { EV("acceptance_decisions"); CHECK((ok == YES) == (a.status_polish == OSQP_POLISH_SUCCESS), "acceptance", "polish status %d, but the polished residuals are %.6Lg/%.6Lg against %.6Lg/%.6Lg", (int)a.status_polish, R.pres, R.dres, P0, D0); }
    if (a.status_polish == OSQP_POLISH_SUCCESS) {
      EV("polished_points_compared"); for (I j = 0; j < n; j++) CHECK(fabsl(A.s->solution->x[j] - sc.D[j] * x[j]) <= sc.D[j] * 4 * err, "polished_x", "x[%d]=%.12g, the regularised reduced system gives %.12Lg (allowance %.3Lg)", (int)j, (double)A.s->solution->x[j], sc.D[j] * x[j], sc.D[j] * 4 * err);
      for (I i = 0; i < m; i++) CHECK(fabsl(A.s->solution->y[i] - sc.E[i] / R.c * y[i]) <= sc.E[i] / R.c * 4 * (err + ez), "polished_y", "y[%d]=%.12g, the regularised reduced system gives %.12Lg", (int)i, (double)A.s->solution->y[i], sc.E[i] / R.c * y[i]);
      if (err < 1e-9L) EV("tight_comparisons");
    }
  }
}
