// Linear solves (P24), scaling (P26) and the convexity test (P06).
#include "history.h"
#include "refscale.h"
static void note(const Model& m0, const std::vector<Op>& ops) {
  G.note = prob_str(m0.pb) + " | " + settings_str(m0.st) + " | " + ops_str(ops); if (G.verbose) G.note += " || " + prob_dump(m0.pb);
  SIG(m0.pb.fam + settings_str(m0.st) + ops_str(ops));
}
static OSQPSettings lin_settings(Rng& r) {
  OSQPSettings s = rand_settings(r, r.chance(0.6)); s.max_iter = r.pick(VI{5, 30, 100, 300}); s.polishing = r.chance(0.1);
  if (s.rho > 1e5 || s.rho < 1e-5) s.rho = (F)r.logu(1e-5, 1e5);
  return s;
}
// ------------------------------------------------------------------ every linear solve
struct LinMon {
  OSQPSolver* s; const Model& m; F eps_prev = 0; bool stop = false; VL xprev;
  LinMon(OSQPSolver* s, const Model& m) : s(s), m(m) {}
  void operator()(const VF& rhs, const VF& sol, I it, I ret) {
    if (stop) return;
    const Prob& p = m.pb; ScalingView sc = scaling_of(s); I n = p.n, mm = p.m; const OSQPSettings& st = *s->settings; bool direct = st.linsys_solver == OSQP_DIRECT_SOLVER;
    EV("linear_solves"); EV(direct ? "direct_solves" : "indirect_solves");
    // penalties from the caller's bounds, the current penalty setting and the documented rule
    VL rho(mm, st.rho);
    if (st.rho_is_vec) for (I i = 0; i < mm; i++) {
      L l = sc.E[i] * p.l[i], u = sc.E[i] * p.u[i];
      if (l < -INF_THR && u > INF_THR) rho[i] = OSQP_RHO_MIN;
      else { L g = u - l; if (fabsl(g - OSQP_RHO_TOL) < 1e-9L || (g != 0 && g < 1e-3L && m.st.scaling)) { INCONC("bound gap near the equality threshold"); return; } if (g < OSQP_RHO_TOL) rho[i] = (L)OSQP_RHO_EQ_OVER_RHO_INEQ * st.rho; }
    }
    if (!allfinite(rhs) || ninf(rhs) > 1e30L) { INCONC("diverged"); stop = true; return; }
    VL x(n), z(mm); for (I j = 0; j < n; j++) x[j] = sol[j]; for (I i = 0; i < mm; i++) z[i] = sol[n + i];
    VL r1(n), a1(n), Ax(mm, 0), aAx(mm, 0);
    for (I j = 0; j < n; j++) { r1[j] = (L)st.sigma * x[j]; a1[j] = fabsl(r1[j]) + fabsl((L)rhs[j]); r1[j] -= rhs[j]; }
    for (I j = 0; j < n; j++) for (I k = p.P.p[j]; k < p.P.p[j + 1]; k++) { I i = p.P.i[k]; L v = sc.c * sc.D[i] * sc.D[j] * p.P.x[k]; r1[i] += v * x[j]; a1[i] += fabsl(v * x[j]); if (i != j) { r1[j] += v * x[i]; a1[j] += fabsl(v * x[i]); } }
    for (I j = 0; j < n; j++) for (I k = p.A.p[j]; k < p.A.p[j + 1]; k++) { I i = p.A.i[k]; L v = sc.E[i] * sc.D[j] * p.A.x[k]; Ax[i] += v * x[j]; aAx[i] += fabsl(v * x[j]); }
    if (direct) {
      CHECK(ret == 0, "solve_error", "iteration %d: linear solver returned %d", (int)it, (int)ret);
      // nu = rho (z - b2); the second block of the system then reads z = A x
      L S2 = 0; VL nu(mm);
      for (I i = 0; i < mm; i++) { nu[i] = rho[i] * (z[i] - rhs[n + i]); S2 = std::max({S2, aAx[i], fabsl(z[i]), fabsl((L)rhs[n + i])}); }
      for (I j = 0; j < n; j++) for (I k = p.A.p[j]; k < p.A.p[j + 1]; k++) { I i = p.A.i[k]; L v = sc.E[i] * sc.D[j] * p.A.x[k]; r1[j] += v * nu[i]; a1[j] += fabsl(v) * rho[i] * (fabsl(z[i]) + fabsl((L)rhs[n + i])); }
      // growth of an LDL factorisation without full pivoting: the Schur complement of either block order
      L amax = 0, rmax = 0, smax = 0; for (I j = 0; j < n; j++) for (I k = p.A.p[j]; k < p.A.p[j + 1]; k++) amax = std::max(amax, fabsl(sc.E[p.A.i[k]] * sc.D[j] * (L)p.A.x[k]));
      for (I i = 0; i < mm; i++) { rmax = std::max(rmax, rho[i]); smax = std::max(smax, fabsl(nu[i])); } smax = std::max(smax, ninf(x));
      L grow = 1e-13L * amax * amax * std::max(rmax * mm, n / (L)st.sigma) * smax;
      L S1 = ninf(a1); for (I j = 0; j < n; j++) CHECK(fabsl(r1[j]) <= 1e-8L * S1 + grow + 1e-280L, "stationarity", "iteration %d: row %d of the first block is off by %.6Lg (magnitude %.6Lg)", (int)it, (int)j, r1[j], S1);
      for (I i = 0; i < mm; i++) CHECK(fabsl(z[i] - Ax[i]) <= 1e-8L * S2 + grow + 1e-280L, "feasibility", "iteration %d: z~[%d]=%.15Lg but A x~ gives %.15Lg (magnitude %.6Lg)", (int)it, (int)i, z[i], Ax[i], S2);
      L b = std::max(ninf(r1) / (S1 + 1e-300L), (L)0); if (b > 1e-13L) EV("backward>1e-13"); if (b > 1e-11L) EV("backward>1e-11"); if (b > 1e-10L) EV("backward>1e-10");
    } else {
      L S2 = 0, nb = 0; for (I i = 0; i < mm; i++) S2 = std::max(S2, aAx[i]);
      for (I i = 0; i < mm; i++) CHECK(fabsl(z[i] - Ax[i]) <= 1e-12L * S2 + 1e-280L, "indirect_z", "iteration %d: z~[%d]=%.15Lg but A x~ gives %.15Lg", (int)it, (int)i, z[i], Ax[i]);
      VL b(n); for (I j = 0; j < n; j++) b[j] = rhs[j];
      for (I j = 0; j < n; j++) for (I k = p.A.p[j]; k < p.A.p[j + 1]; k++) { I i = p.A.i[k]; L v = sc.E[i] * sc.D[j] * p.A.x[k]; L t = v * rho[i] * rhs[n + i]; b[j] += t; r1[j] += v * rho[i] * Ax[i] - t; a1[j] += fabsl(t) + fabsl(v) * rho[i] * aAx[i]; }
      nb = ninf(b); F ps, ds; scaled_residuals(s, ps, ds);
      F eps; if (it == 1) eps = nb < OSQP_CG_TOL_MIN ? 1 : (F)(nb * st.cg_tol_fraction); else eps = (F)std::max<L>(std::min<L>((L)st.cg_tol_fraction * sqrtl((L)ps * ds), eps_prev), (L)OSQP_CG_TOL_MIN);
      eps_prev = eps;
      VL x0 = xprev.empty() ? VL(n, 0) : xprev; xprev = x;
      if (ret == -1 || ret == 0) {      // stopped at the iteration limit: a plain CG must also need most of those iterations
        EV("cg_iteration_limit");
        auto mul = [&](const VL& v, VL& w) { VL t(mm, 0); w.assign(n, 0); for (I j = 0; j < n; j++) w[j] = (L)st.sigma * v[j];
          for (I j = 0; j < n; j++) for (I k = p.P.p[j]; k < p.P.p[j + 1]; k++) { I i = p.P.i[k]; L e = sc.c * sc.D[i] * sc.D[j] * p.P.x[k]; w[i] += e * v[j]; if (i != j) w[j] += e * v[i]; }
          for (I j = 0; j < n; j++) for (I k = p.A.p[j]; k < p.A.p[j + 1]; k++) t[p.A.i[k]] += sc.E[p.A.i[k]] * sc.D[j] * p.A.x[k] * v[j];
          for (I j = 0; j < n; j++) for (I k = p.A.p[j]; k < p.A.p[j + 1]; k++) w[j] += sc.E[p.A.i[k]] * sc.D[j] * p.A.x[k] * rho[p.A.i[k]] * t[p.A.i[k]]; };
        VL M(n, 1); if (st.cg_precond == OSQP_DIAGONAL_PRECONDITIONER) { for (I j = 0; j < n; j++) { M[j] = st.sigma; for (I k = p.P.p[j]; k < p.P.p[j + 1]; k++) if (p.P.i[k] == j) M[j] += sc.c * sc.D[j] * sc.D[j] * p.P.x[k]; for (I k = p.A.p[j]; k < p.A.p[j + 1]; k++) { L e = sc.E[p.A.i[k]] * sc.D[j] * p.A.x[k]; M[j] += rho[p.A.i[k]] * e * e; } } }
        VL w, rr(n), d(n), xx = x0; mul(xx, w); L rz = 0; for (I j = 0; j < n; j++) { rr[j] = b[j] - w[j]; d[j] = rr[j] / M[j]; rz += rr[j] * d[j]; }
        I its = 0; L want = eps * 0.01L; for (; its < st.cg_max_iter && ninf(rr) > want; its++) { mul(d, w); L dw = dotl(d, w); if (!(dw > 0)) break; L a = rz / dw; for (I j = 0; j < n; j++) { xx[j] += a * d[j]; rr[j] -= a * w[j]; } L z2 = 0; for (I j = 0; j < n; j++) z2 += rr[j] * rr[j] / M[j]; L be = z2 / rz; rz = z2; for (I j = 0; j < n; j++) d[j] = rr[j] / M[j] + be * d[j]; }
        CHECK(ninf(rr) > want || 3 * its + 5 >= st.cg_max_iter, "cg_gave_up", "iteration %d: stopped at the limit of %d CG iterations, but %d suffice (residual %.6Lg, promised %.6g)", (int)it, (int)st.cg_max_iter, (int)its, ninf(r1), (double)eps);
        return;
      }
      CHECK(ret == 2, "cg_error", "iteration %d: linear solver returned %d", (int)it, (int)ret);
      L S1 = ninf(a1); EV("cg_accuracy_checks");
      CHECK(ninf(r1) <= eps * (1 + 1e-6L) + 1e-9L * S1, "cg_accuracy", "iteration %d: residual of the reduced system %.6Lg exceeds the promised %.6g (magnitude %.6Lg, rhs %.6Lg, code %d)", (int)it, ninf(r1), (double)eps, S1, nb, (int)ret);
    }
  }
};
PROPERTY(P24) {
  GenOpt o; o.nmax = 10; o.mmax = 12; Prob pb = r.chance(0.7) ? gen_solvable(r, o) : gen_any(r, o); OSQPSettings st = lin_settings(r);
  Model m0{pb, st}, m = m0; bool direct = st.linsys_solver == OSQP_DIRECT_SOLVER;
  Solver S(pb, st); if (S.flag) { if (S.flag == OSQP_NONCVX_ERROR && (st.sigma < 1e-5 || st.rho > 1e3)) INCONC("extreme penalty"); else VIOL("setup_failed", strf("%d", (int)S.flag)); return; }
  LinMon mon(S.s, m); Hooked h(S.s, [&](const VF& a, const VF& b, I it, I ret) { mon(a, b, it, ret); });
  std::vector<Op> ops; int len = r.irange(2, 7); note(m0, ops);
  for (int t = 0; t < len; t++) {
    Op op = (t == 0 && r.chance(0.5)) || t == len - 1 ? op_solve() : gen_op(r, m, M_SOLVE | M_VEC | M_MAT | M_RHO | M_SET | M_WARM | M_COLD);
    if (op.k == SETT) { OSQPSettings n = op.st; n.polishing = st.polishing; n.max_iter = std::min<I>(n.max_iter, 300); if (!direct) { n.cg_precond = r.chance(0.5) ? OSQP_DIAGONAL_PRECONDITIONER : OSQP_NO_PRECONDITIONER; n.cg_max_iter = r.pick(VI{20, 100}); n.cg_tol_fraction = (F)r.uni(0.05, 0.5); n.cg_tol_reduction = r.irange(1, 12); } op.st = n; }
    if (op.k == RHO && (op.rho > 1e5 || op.rho < 1e-5)) op.rho = 1;
    ops.push_back(op); note(m0, ops); model_apply(m, op);
    I f = op_apply(S, op);
    if (op.k == SOLVE) EV("solves"); else EV(strf("updates:%s", op_str(op).substr(0, 3).c_str()).c_str());
    if (f && op.k != SOLVE) return;      // judged by other checks
    if (G.nviol) return;
  }
}
// ------------------------------------------------------------------ scaling
PROPERTY(P26) {
  GenOpt o; o.nmax = 10; o.mmax = 12; Prob pb = r.chance(0.6) ? gen_solvable(r, o) : gen_any(r, o); OSQPSettings st = rand_settings(r); if (!st.scaling) st.scaling = r.pick(VI{1, 2, 10, 25}); st.max_iter = r.pick(VI{2, 50}); st.polishing = 0;
  if (r.chance(0.3) && pb.m) { I t = r.irange(0, (int)pb.m - 1); double s = r.pick(std::vector<double>{1e-7, 1e-5, 1e5, 1e7}); for (I k = 0; k < pb.A.nnz(); k++) if (pb.A.i[k] == t) pb.A.x[k] = (F)(pb.A.x[k] * s); pb.fam += "-extremerow"; }
  if (r.chance(0.2)) { double s = r.pick(std::vector<double>{1e-7, 1e-4, 1e5, 1e8}); for (auto& e : pb.q) e = (F)(e * s); pb.fam += "-extremecost"; }
  Model m0{pb, st}, m = m0; std::vector<Op> ops;
  Solver S(pb, st); if (S.flag) { INCONC("setup refused"); return; }
  int len = r.irange(0, 12); long nmat = 0; bool onlymat = true; note(m0, ops);
  for (int t = 0; t <= len; t++) {
    if (t) { Op op = gen_op(r, m, M_SOLVE | M_VEC | M_MAT | M_RHO); ops.push_back(op); note(m0, ops); I f = op_apply(S, op); if (f) { EV("refused_ops"); return; } model_apply(m, op); EV("updates"); nmat += op.k == MAT; if (op.k == VEC) onlymat = false; if (op.k == MAT) onlymat = onlymat && true; }
    ScalingView sc = scaling_of(S.s); const Prob& p = m.pb; EV("data_views"); L tol = 1e-12L * (20 + 2.0L * st.scaling) * (1 + nmat) / 20, k = st.scaling;
    L lo = powl(sqrtl((L)OSQP_MIN_SCALING), k) , hi = 1 / lo, clo = powl((L)OSQP_MIN_SCALING, k);
    CHECK(sc.on && sc.c > 0 && sc.c >= clo * (1 - 1e-9L) && sc.c <= 1 / clo * (1 + 1e-9L) && fabsl(sc.c * sc.cinv - 1) <= 1e-14L, "cost_factor", "c=%.15Lg 1/c=%.15Lg", sc.c, sc.cinv);
    for (I j = 0; j < p.n; j++) CHECK(sc.D[j] >= lo * (1 - 1e-9L) && sc.D[j] <= hi * (1 + 1e-9L) && fabsl(sc.D[j] * sc.Dinv[j] - 1) <= 1e-14L, "D", "D[%d]=%.15Lg inverse %.15Lg", (int)j, sc.D[j], sc.Dinv[j]);
    for (I i = 0; i < p.m; i++) CHECK(sc.E[i] >= lo * (1 - 1e-9L) && sc.E[i] <= hi * (1 + 1e-9L) && fabsl(sc.E[i] * sc.Einv[i] - 1) <= 1e-14L, "E", "E[%d]=%.15Lg inverse %.15Lg", (int)i, sc.E[i], sc.Einv[i]);
    VL colP(p.n, 0), colA(p.n, 0), rowA(p.m, 0);
    for (I j = 0; j < p.n; j++) { for (I q = p.P.p[j]; q < p.P.p[j + 1]; q++) { colP[j] += fabsl((L)p.P.x[q]); colP[p.P.i[q]] += fabsl((L)p.P.x[q]); } for (I q = p.A.p[j]; q < p.A.p[j + 1]; q++) { colA[j] += fabsl((L)p.A.x[q]); rowA[p.A.i[q]] += fabsl((L)p.A.x[q]); } }
    for (I j = 0; j < p.n; j++) if (colP[j] == 0 && colA[j] == 0) { EV("empty_columns"); CHECK(sc.D[j] == 1, "empty_column_scaled", "D[%d]=%.15Lg", (int)j, sc.D[j]); }
    for (I i = 0; i < p.m; i++) if (rowA[i] == 0) { EV("empty_rows"); CHECK(sc.E[i] == 1, "empty_row_scaled", "E[%d]=%.15Lg", (int)i, sc.E[i]); }
    Csc P = data_P(S.s), A = data_A(S.s); VF q = data_q(S.s), l = data_l(S.s), u = data_u(S.s);
    auto chk = [&](const char* nm, I i, L got, L want) { CHECK(fabsl(got - want) <= tol * fabsl(want), nm, "entry %d is %.17Lg, the caller's value scaled is %.17Lg", (int)i, got, want); };
    for (I j = 0; j < p.n; j++) { for (I t2 = P.p[j]; t2 < P.p[j + 1]; t2++) chk("P", t2, P.x[t2], sc.c * sc.D[j] * sc.D[P.i[t2]] * p.P.x[t2]); for (I t2 = A.p[j]; t2 < A.p[j + 1]; t2++) chk("A", t2, A.x[t2], sc.E[A.i[t2]] * sc.D[j] * p.A.x[t2]); chk("q", j, q[j], sc.c * sc.D[j] * p.q[j]); }
    for (I i = 0; i < p.m; i++) { chk("l", i, l[i], sc.E[i] * p.l[i]); chk("u", i, u[i], sc.E[i] * p.u[i]); }
    if (!t || (onlymat && nmat)) {      // scalings are recomputed at setup and at matrix updates only
      RefScale R(p, st.scaling, true), U(p, st.scaling); if (R.ambiguous || U.ambiguous) { INCONC("norm at a scaling threshold"); continue; } EV("equilibrations_compared");
      auto first = [&](const RefScale& Q) -> std::string { char b[200];
        for (I j = 0; j < p.n; j++) if (!(fabsl(sc.D[j] - Q.D[j]) <= 1e-7L * Q.D[j])) { snprintf(b, sizeof b, "D[%d]=%.12Lg, documented equilibration gives %.12Lg", (int)j, sc.D[j], Q.D[j]); return b; }
        for (I i = 0; i < p.m; i++) if (!(fabsl(sc.E[i] - Q.E[i]) <= 1e-7L * Q.E[i])) { snprintf(b, sizeof b, "E[%d]=%.12Lg, documented equilibration gives %.12Lg", (int)i, sc.E[i], Q.E[i]); return b; }
        if (!(fabsl(sc.c - Q.c) <= 1e-7L * Q.c)) { snprintf(b, sizeof b, "c=%.12Lg, documented equilibration gives %.12Lg", sc.c, Q.c); return b; } return ""; };
      std::string d = first(R);
      if (!d.empty()) { static bool said = false; std::string e = first(U); CHECK(e.empty(), "equilibration", "%s", e.c_str()); EV("triangle_norms"); if (!said) { said = true; VIOL("triangle_column_norms", "with the norms of the stored upper triangle only: " + d); } }
    }
  }
}
// ------------------------------------------------------------------ convexity
static VL eig_sym(std::vector<VL> M) {   // Jacobi
  I n = (I)M.size(); for (int sweep = 0; sweep < 60; sweep++) { L off = 0; for (I i = 0; i < n; i++) for (I j = 0; j < i; j++) off = std::max(off, fabsl(M[i][j])); if (off < 1e-30L) break;
    for (I p = 0; p < n; p++) for (I q = p + 1; q < n; q++) { if (M[p][q] == 0) continue; L th = (M[q][q] - M[p][p]) / (2 * M[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
      for (I k = 0; k < n; k++) { L a = M[k][p], b = M[k][q]; M[k][p] = c * a - s * b; M[k][q] = s * a + c * b; }
      for (I k = 0; k < n; k++) { L a = M[p][k], b = M[q][k]; M[p][k] = c * a - s * b; M[q][k] = s * a + c * b; } } }
  VL e(n); for (I i = 0; i < n; i++) e[i] = M[i][i]; std::sort(e.begin(), e.end()); return e;
}
// smallest eigenvalue of P + sigma I + A' rho A for the scaled problem, relative to its largest
static L min_eig(const Prob& p, const OSQPSettings& st, const ScalingView& sc, F rho0, L& lmin, L& lmax) {
  I n = p.n; std::vector<VL> M(n, VL(n, 0)); Dense A(p.m, std::vector<double>(n, 0));
  for (I j = 0; j < n; j++) for (I k = p.P.p[j]; k < p.P.p[j + 1]; k++) { I i = p.P.i[k]; L v = sc.c * sc.D[i] * sc.D[j] * p.P.x[k]; M[i][j] += v; if (i != j) M[j][i] += v; }
  for (I j = 0; j < n; j++) for (I k = p.A.p[j]; k < p.A.p[j + 1]; k++) A[p.A.i[k]][j] = (double)(sc.E[p.A.i[k]] * sc.D[j] * p.A.x[k]);
  for (I i = 0; i < p.m; i++) { L l = sc.E[i] * p.l[i], u = sc.E[i] * p.u[i], rho = rho0; if (st.rho_is_vec) { if (l < -INF_THR && u > INF_THR) rho = OSQP_RHO_MIN; else if (u - l < OSQP_RHO_TOL) rho = 1e3L * rho0; } for (I a = 0; a < n; a++) if (A[i][a] != 0) for (I b = 0; b < n; b++) M[a][b] += rho * A[i][a] * A[i][b]; }
  for (I i = 0; i < n; i++) M[i][i] += st.sigma;
  VL e = eig_sym(M); lmin = n ? e[0] : 1; lmax = 0; for (auto v : e) lmax = std::max(lmax, fabsl(v)); return lmin;
}
static void make_indef(Rng& r, Prob& p, bool strong) {   // lower one diagonal entry (present in the pattern) below zero
  VI ks; for (I j = 0; j < p.n; j++) for (I k = p.P.p[j]; k < p.P.p[j + 1]; k++) if (p.P.i[k] == j) ks.push_back(k);
  if (ks.empty()) return; I k = r.pick(ks); p.P.x[k] = (F)-(strong ? r.uni(1, 50) : r.logu(1e-4, 5));
}
static Prob full_diag(Rng& r) {      // a convex problem whose P stores every diagonal entry
  GenOpt o; o.nmax = 9; o.mmax = 8; Prob p = gen_strict(r, o); if (r.chance(0.4)) { p.m = 0; p.A.m = 0; p.A.p.assign(p.n + 1, 0); p.A.i.clear(); p.A.x.clear(); p.l.clear(); p.u.clear(); p.fam += "-m0"; } p.hasopt = false; p.kind = K_UNKNOWN; return p;
}
PROPERTY(P06) {
  OSQPSettings st = rand_settings(r, true); if (st.rho > 1e3 || st.rho < 1e-4) st.rho = (F)0.1; if (st.sigma < 1e-6) st.sigma = (F)1e-6; st.polishing = r.chance(0.2); if (st.max_iter > 500) st.max_iter = 500;
  int t = r.irange(0, 3); Prob pb = r.chance(0.3) ? gen_solvable(r) : full_diag(r);
  const L mg = 1e-6L;
  auto judge = [&](const Prob& p, I flag, const ScalingView& sc, F rho, const char* when) {
    L lo, hi; min_eig(p, st, sc, rho, lo, hi); bool indef = lo < -mg * hi - 1e-9L, def = lo > mg * hi && hi < 1e12L * lo;
    EV(indef ? "indefinite_systems" : def ? "definite_systems" : "borderline_systems");
    if (indef) CHECK(flag != 0, "nonconvex_accepted", "%s: smallest eigenvalue %.6Lg of %.6Lg, returned %d", when, lo, hi, (int)flag);
    if (indef && flag && !strcmp(when, "setup")) CHECK(flag == OSQP_NONCVX_ERROR, "wrong_code", "%s: returned %d instead of the non-convexity error", when, (int)flag);
    if (def) CHECK(flag == 0, "convex_refused", "%s: smallest eigenvalue %.6Lg of %.6Lg, returned %d", when, lo, hi, (int)flag);
    return indef ? 1 : def ? 0 : -1;
  };
  if (t <= 1) {       // at setup
    Prob p = pb; if (t == 0) make_indef(r, p, r.chance(0.5)); else if (r.chance(0.3)) p = gen_noncvx(r);
    G.note = "setup " + prob_str(p) + " | " + settings_str(st); if (G.verbose) G.note += " || " + prob_dump(p); SIG(G.note);
    Solver S(p, st); if (S.flag && S.flag != OSQP_NONCVX_ERROR) { VIOL("setup_failed", strf("%d", (int)S.flag)); return; }
    if (!S.s) { VIOL("no_solver", "setup refused without leaving a solver to query"); return; }
    judge(p, S.flag, scaling_of(S.s), S.s->settings->rho, "setup");
    if (S.flag) { CHECK(S.s->info->status_val == OSQP_NON_CVX && !strcmp(S.s->info->status, "problem non convex"), "not_marked", "status %d '%s' after a refused setup", (int)S.s->info->status_val, S.s->info->status); CHECK(osqp_solve(S.s) != 0, "solved_after_refusal", "solving a refused problem succeeded"); EV("refused_setups"); return; }
    I f = S.solve(); EV("solves"); (void)f;
    if (S.status() == OSQP_SOLVED && t == 0 && allfinite(S.x()) && (ninf(S.x()) > 1e15L || ninf(S.y()) > 1e15L)) INCONC("accepted non-convex problem diverging");
    else if (S.status() == OSQP_SOLVED && t == 0) { oracle_outcome(p, st, S, "accepted non-convex problem", O_OPT); EV("accepted_nonconvex_solved"); }
    return;
  }
  // through updates: convex -> maybe non-convex -> convex again
  G.note = "update " + prob_str(pb) + " | " + settings_str(st); if (G.verbose) G.note += " || " + prob_dump(pb); SIG(G.note);
  Solver S(pb, st); if (S.flag) { judge(pb, S.flag, scaling_of(S.s), st.rho, "setup"); return; }
  if (pb.P.nnz() == 0) { EV("no_entries"); return; }
  Prob good = pb; int rounds = r.irange(1, 3);
  for (int k = 0; k < rounds; k++) {
    if (r.chance(0.5)) { S.solve(); EV("solves"); }
    Prob bad = good; make_indef(r, bad, r.chance(0.6)); bool full = r.chance(0.5); VI idx; VF val; for (I i = 0; i < bad.P.nnz(); i++) if (full || bad.P.x[i] != good.P.x[i]) { idx.push_back(i); val.push_back(bad.P.x[i]); }
    if (idx.empty()) return;
    I f = full && r.chance(0.5) ? osqp_update_data_mat(S.s, val.data(), nullptr, (I)val.size(), nullptr, nullptr, 0) : osqp_update_data_mat(S.s, val.data(), idx.data(), (I)idx.size(), nullptr, nullptr, 0); EV("matrix_updates");
    int j = judge(bad, f, scaling_of(S.s), S.s->settings->rho, "matrix update");
    if (f) EV("refused_updates");
    if (j < 0) return;
    if (!f) S.solve();
    // back to the convex data: accepted, and solves as a fresh solver would
    f = osqp_update_data_mat(S.s, good.P.x.data(), nullptr, good.P.nnz(), nullptr, nullptr, 0); EV("recoveries");
    j = judge(good, f, scaling_of(S.s), S.s->settings->rho, "update back to convex data"); if (f) return;
    osqp_cold_start(S.s); S.solve(); EV("solves"); oracle_outcome(good, st, S, "after recovering", O_ALL);
  }
}
