// Adjoint derivatives of the solution map against an independent extended-precision adjoint and against finite differences (P33).
#include "history.h"
typedef std::vector<VL> ML;
static bool lsolve(ML M, VL b, VL& x, L* growth) {   // Gaussian elimination, full pivoting over rows and columns
  int N = (int)b.size(); std::vector<int> pc(N); for (int i = 0; i < N; i++) pc[i] = i; L big = 0, small = 1e300L;
  for (int k = 0; k < N; k++) { int pi = k, pj = k; for (int i = k; i < N; i++) for (int j = k; j < N; j++) if (fabsl(M[i][j]) > fabsl(M[pi][pj])) { pi = i; pj = j; } L v = fabsl(M[pi][pj]); if (!(v > 0)) return false; big = std::max(big, v); small = std::min(small, v);
    std::swap(M[k], M[pi]); std::swap(b[k], b[pi]); for (int i = 0; i < N; i++) std::swap(M[i][k], M[i][pj]); std::swap(pc[k], pc[pj]);
    for (int i = k + 1; i < N; i++) { L f = M[i][k] / M[k][k]; if (f == 0) continue; for (int j = k; j < N; j++) M[i][j] -= f * M[k][j]; b[i] -= f * b[k]; } }
  x.assign(N, 0); for (int k = N - 1; k >= 0; k--) { L s = b[k]; for (int j = k + 1; j < N; j++) s -= M[k][j] * x[pc[j]]; x[pc[k]] = s / M[k][k]; } if (growth) *growth = N ? big / small : 1; return true;
}
// a problem in dense form whose solution has a known strictly complementary active set
struct DP { int n, m; ML P, A; VL q, l, u; std::vector<int> act; VL x, y; };   // act: 0 inactive, -1 lower, 1 upper, 2 equality
static bool kkt(const DP& d, ML& K, std::vector<int>& rows) { rows.clear(); for (int i = 0; i < d.m; i++) if (d.act[i]) rows.push_back(i); int N = d.n + (int)rows.size(); K.assign(N, VL(N, 0)); for (int i = 0; i < d.n; i++) for (int j = 0; j < d.n; j++) K[i][j] = d.P[i][j]; for (size_t a = 0; a < rows.size(); a++) for (int j = 0; j < d.n; j++) K[d.n + a][j] = K[j][d.n + a] = d.A[rows[a]][j]; return true; }
static L bact(const DP& d, int i) { return d.act[i] == -1 ? d.l[i] : d.u[i]; }
// solution with the active set held
static bool resolve(const DP& d, VL& x, VL& y, L* gr = nullptr) { ML K; std::vector<int> rw; kkt(d, K, rw); VL b(K.size()), s; for (int i = 0; i < d.n; i++) b[i] = -d.q[i]; for (size_t a = 0; a < rw.size(); a++) b[d.n + a] = bact(d, rw[a]); if (!lsolve(K, b, s, gr)) return false; x.assign(s.begin(), s.begin() + d.n); y.assign(d.m, 0); for (size_t a = 0; a < rw.size(); a++) y[rw[a]] = s[d.n + a]; return true; }
static DP gen(Rng& r, bool zero_mult) {
  DP d; d.n = r.irange(1, 8); d.m = r.chance(0.1) ? 0 : r.irange(1, 12); double den = r.pick(std::vector<double>{0.4, 0.8, 1});
  ML B(d.n, VL(d.n, 0)); for (auto& row : B) for (auto& e : row) if (r.chance(den)) e = r.gauss(); d.P.assign(d.n, VL(d.n, 0)); L c = r.uni(0.3, 2); for (int i = 0; i < d.n; i++) for (int j = 0; j < d.n; j++) { L s = i == j ? c : 0; for (int k = 0; k < d.n; k++) s += B[i][k] * B[j][k]; d.P[i][j] = (F)s; } for (int i = 0; i < d.n; i++) for (int j = 0; j < i; j++) d.P[i][j] = d.P[j][i];
  d.A.assign(d.m, VL(d.n, 0)); for (auto& row : d.A) for (auto& e : row) if (r.chance(den)) e = (F)r.gauss();
  d.x.resize(d.n); bool origin = zero_mult && r.chance(0.3); for (auto& e : d.x) e = origin ? 0 : (F)r.gauss(); d.y.assign(d.m, 0); d.act.assign(d.m, 0); d.l.resize(d.m); d.u.resize(d.m); int budget = r.irange(0, d.n); double pz = zero_mult ? r.pick(std::vector<double>{0.3, 1}) : 0;
  for (int i = 0; i < d.m; i++) {
    L ax = 0, nr = 0; for (int j = 0; j < d.n; j++) { ax += d.A[i][j] * d.x[j]; nr += fabsl(d.A[i][j]); } ax = (F)ax; int k = nr > 0.3L && budget > 0 ? r.irange(0, 3) : 0; bool one = r.chance(0.4);
    if (k == 0) { L s1 = r.uni(0.15, 3), s2 = r.uni(0.15, 3); d.l[i] = r.chance(0.35) ? -(L)INF : ax - s1; d.u[i] = r.chance(0.35) ? (L)INF : ax + s2; if (one && r.chance(0.3)) d.l[i] = -(L)INF, d.u[i] = INF; d.act[i] = 0; }
    else { budget--; L mag = r.uni(0.15, 3); if (k == 1) { d.act[i] = 1; d.u[i] = ax; d.l[i] = one ? -(L)INF : ax - (L)r.uni(0.15, 3); d.y[i] = mag; } else if (k == 2) { d.act[i] = -1; d.l[i] = ax; d.u[i] = one ? (L)INF : ax + (L)r.uni(0.15, 3); d.y[i] = -mag; } else { d.act[i] = 2; d.l[i] = d.u[i] = ax; d.y[i] = r.chance(0.5) ? mag : -mag; if (r.chance(pz)) d.y[i] = 0; } }
    d.l[i] = (F)d.l[i]; d.u[i] = (F)d.u[i]; if (d.act[i] == 2) d.u[i] = d.l[i];
  }
  d.q.resize(d.n); for (int j = 0; j < d.n; j++) { L s = 0; for (int k = 0; k < d.n; k++) s += d.P[j][k] * d.x[k]; for (int i = 0; i < d.m; i++) s += d.A[i][j] * d.y[i]; d.q[j] = (F)-s; }
  return d;
}
static Prob to_prob(const DP& d) { Prob p; p.n = d.n; p.m = d.m; Dense P(d.n, std::vector<double>(d.n)), A(d.m, std::vector<double>(d.n)); for (int i = 0; i < d.n; i++) for (int j = 0; j < d.n; j++) P[i][j] = (double)d.P[i][j]; for (int i = 0; i < d.m; i++) for (int j = 0; j < d.n; j++) A[i][j] = (double)d.A[i][j]; std::vector<std::vector<char>> kp(d.n, std::vector<char>(d.n, 1)), ka(d.m, std::vector<char>(d.n, 1)); p.P = csc_from_dense(P, d.n, d.n, true, &kp); p.A = csc_from_dense(A, d.m, d.n, false, &ka); p.q.assign(d.q.begin(), d.q.end()); p.l.assign(d.l.begin(), d.l.end()); p.u.assign(d.u.begin(), d.u.end()); p.kind = K_SOLVABLE; p.fam = "deriv"; return p; }
struct Grad { ML P, A; VL q, b; };   // with respect to the full P, A, q and the active bounds
static bool adjoint(const DP& d, const VF& dx, const VF& dy, Grad& g, L* gr) {
  ML K; std::vector<int> rw; kkt(d, K, rw); VL rhs(K.size()), w; for (int i = 0; i < d.n; i++) rhs[i] = dx[i]; for (size_t a = 0; a < rw.size(); a++) rhs[d.n + a] = dy[rw[a]]; if (!lsolve(K, rhs, w, gr)) return false;
  VL wy(d.m, 0); for (size_t a = 0; a < rw.size(); a++) wy[rw[a]] = w[d.n + a]; g.q.resize(d.n); g.b = wy; g.P.assign(d.n, VL(d.n)); g.A.assign(d.m, VL(d.n));
  for (int j = 0; j < d.n; j++) g.q[j] = -w[j]; for (int i = 0; i < d.n; i++) for (int j = 0; j < d.n; j++) g.P[i][j] = -0.5L * (w[i] * d.x[j] + w[j] * d.x[i]); for (int i = 0; i < d.m; i++) for (int j = 0; j < d.n; j++) g.A[i][j] = -(w[j] * d.y[i] + wy[i] * d.x[j]); return true;
}
static L loss(const DP& d, const VF& dx, const VF& dy) { VL x, y; resolve(d, x, y); L s = 0; for (int i = 0; i < d.n; i++) s += dx[i] * x[i]; for (int i = 0; i < d.m; i++) s += dy[i] * y[i]; return s; }
static bool g_zero;
PROPERTY(P33) {
#ifndef OSQP_ENABLE_DERIVATIVES
  INCONC("derivatives not built");
#else
  bool zero = g_zero = r.chance(0.15); DP d; VL x2, y2; L gr = 0; for (int tries = 0;; tries++) { if (tries > 50) { INCONC("no well-posed problem"); return; } d = gen(r, zero); if (resolve(d, x2, y2, &gr) && gr < 200) break; }
  OSQPSettings st = default_settings(); st.eps_abs = st.eps_rel = (F)1e-11; st.max_iter = 200000; st.scaling = r.pick(std::vector<int>{0, 1, 5, 10}); st.polishing = r.chance(0.5); st.rho = (F)r.logu(1e-2, 1e1); st.rho_is_vec = r.chance(0.8); st.warm_starting = r.chance(0.8); st.adaptive_rho_interval = r.pick(std::vector<int>{10, 50}); st.alpha = (F)r.uni(1, 1.8); st.check_termination = r.irange(1, 30);
  if (r.chance(0.02)) {   // no solution kept: nothing to differentiate
    Prob p = to_prob(d); st.allocate_solution = 0; Solver T(p, st); if (T.flag) return; T.solve(); VF dx(d.n, (F)1), dy(d.m + 1, (F)1); I e = osqp_adjoint_derivative_compute(T.s, dx.data(), dy.data()); EV("no_solution"); CHECK(e != 0, "no_solution", "derivatives of a solver that keeps no solution returned success"); CscView VP(p.P), VA(p.A); e = osqp_adjoint_derivative_get_mat(T.s, &VP.M, &VA.M); CHECK(e != 0, "no_solution", "get_mat returned success"); return; }
  Solver S; int rounds = r.irange(1, 3);
  for (int k = 0; k < rounds; k++) {
    if (k && r.chance(0.6)) {   // the caller's data change: same pattern, other values
      DP e; bool ok = false; for (int t = 0; t < 200 && !ok; t++) { e = gen(r, zero); ok = e.n == d.n && e.m == d.m && resolve(e, x2, y2, &gr) && gr < 200; } if (!ok) break; d = e; Prob p = to_prob(d); F fd; I f1 = osqp_update_data_mat(S.s, p.P.x.data(), nullptr, 0, p.A.x.empty() ? &fd : p.A.x.data(), nullptr, 0), f2 = osqp_update_data_vec(S.s, p.q.data(), p.m ? p.l.data() : nullptr, p.m ? p.u.data() : nullptr); CHECK(!f1 && !f2, "update", "updates returned %d %d", (int)f1, (int)f2); EV("updated");
    } else if (!k) { Prob p = to_prob(d); S.setup(p, st); CHECK(!S.flag, "setup", "setup returned %d", (int)S.flag); if (S.flag) return; }
    G.note = strf("n=%d m=%d", d.n, d.m) + (zero ? " zero multipliers allowed" : "") + " " + settings_str(st) + strf(" round %d act=", k); for (int a : d.act) G.note += strf("%d", a); SIG(strf("%d %d ", d.n, d.m) + G.note.substr(G.note.find("act="))); { Prob p = to_prob(d); G.note += " " + prob_dump(p).substr(0, 1500); }
    I f = S.solve(); if (f || S.status() != OSQP_SOLVED) { INCONC("not solved to the required accuracy"); return; }
    resolve(d, x2, y2); d.x = x2; d.y = y2; L err = 0; for (int i = 0; i < d.n; i++) err = std::max(err, fabsl(S.s->solution->x[i] - x2[i])); for (int i = 0; i < d.m; i++) err = std::max(err, fabsl(S.s->solution->y[i] - y2[i])); if (err > 1e-7L) { INCONC("solution not accurate enough"); return; }
    bool twin = r.chance(0.3); VF keepx = S.x(), keepy = S.y(); int calls = r.irange(1, 3);
    for (int c = 0; c < calls; c++) {
      VF dx(d.n), dy(d.m); double sc = r.logu(1e-3, 1e3); int what = r.irange(0, 3); for (auto& e : dx) e = what == 1 ? 0 : (F)(sc * r.gauss()); for (auto& e : dy) e = what == 2 ? 0 : (F)(sc * r.gauss()); if (what == 3) { for (auto& e : dx) if (r.chance(0.6)) e = 0; for (auto& e : dy) if (r.chance(0.6)) e = 0; }
      Grad g; L gk; if (!adjoint(d, dx, dy, g, &gk)) return;
      // the oracle's own adjoint, against a central difference of the solution map in a random direction
      if (r.chance(0.2)) { DP a = d, b = d; L h = 1e-6L, lin = 0, mag = 0; for (int i = 0; i < d.n; i++) { L t = r.gauss(); a.q[i] += h * t; b.q[i] -= h * t; lin += g.q[i] * t; mag += fabsl(g.q[i] * t); for (int j = i; j < d.n; j++) { L t2 = r.gauss(); a.P[i][j] += h * t2; b.P[i][j] -= h * t2; if (i != j) { a.P[j][i] += h * t2; b.P[j][i] -= h * t2; } lin += (i == j ? 1 : 2) * g.P[i][j] * t2; mag += fabsl(g.P[i][j] * t2); } }
        for (int i = 0; i < d.m; i++) { L t = r.gauss(); if (d.act[i]) { lin += g.b[i] * t; mag += fabsl(g.b[i] * t); (d.act[i] == -1 ? a.l : a.u)[i] += h * t; (d.act[i] == -1 ? b.l : b.u)[i] -= h * t; } for (int j = 0; j < d.n; j++) { L t2 = r.gauss(); a.A[i][j] += h * t2; b.A[i][j] -= h * t2; lin += g.A[i][j] * t2; mag += fabsl(g.A[i][j] * t2); } }
        L fd = (loss(a, dx, dy) - loss(b, dx, dy)) / (2 * h); EV("finite_differences"); if (fabsl(fd - lin) > 1e-6L * (mag + fabsl(fd)) * (1 + gr * gr * 1e-3L) + 1e-12L * sc) { INCONC("the two references disagree"); return; } }
      I e = osqp_adjoint_derivative_compute(S.s, dx.data(), d.m ? dy.data() : dx.data()); CHECK(e == 0, "compute", "returned %d", (int)e); if (e) return;
      VF dq(d.n, (F)NAN), dl(d.m + 1, (F)NAN), du(d.m + 1, (F)NAN); e = osqp_adjoint_derivative_get_vec(S.s, dq.data(), dl.data(), du.data()); CHECK(e == 0, "get_vec", "returned %d", (int)e);
      // patterns chosen by the caller
      Csc Pp, Ap; { Dense A1(d.n, std::vector<double>(d.n)), A2(d.m, std::vector<double>(d.n)); std::vector<std::vector<char>> k1(d.n, std::vector<char>(d.n)), k2(d.m, std::vector<char>(d.n)); double den = r.pick(std::vector<double>{0.3, 1}); bool tri = r.chance(0.5); for (auto& v : k1) for (auto& b : v) b = r.chance(den); for (auto& v : k2) for (auto& b : v) b = r.chance(den); Pp = csc_from_dense(A1, d.n, d.n, tri, &k1); Ap = csc_from_dense(A2, d.m, d.n, false, &k2); for (auto& v : Pp.x) v = (F)NAN; for (auto& v : Ap.x) v = (F)NAN; }
      CscView VP(Pp), VA(Ap); e = osqp_adjoint_derivative_get_mat(S.s, &VP.M, &VA.M); CHECK(e == 0, "get_mat", "returned %d", (int)e);
      L big = 0; for (auto v : g.q) big = std::max(big, fabsl(v)); for (auto v : g.b) big = std::max(big, fabsl(v)); L sol = 1; for (auto v : d.x) sol = std::max(sol, fabsl(v)); for (auto v : d.y) sol = std::max(sol, fabsl(v)); big = std::max(big, (L)sc * 0.01L);
      L tolv = 1e-5L * big * (1 + gr * 1e-2L + gr * gr * 1e-4L) + 1e-11L * (1 + gr * gr), tolm = tolv * sol; EV("derivatives"); if (what == 1) EV("dual_only_gradients"); L worst = 0; auto cmp = [&](L got, L want, L tol, const char* key, int i, int j) { L q = fabsl(got - want) / tol; if (!(q <= worst)) worst = q; EV("derivative_entries"); CHECK(q <= 1, key, "%s[%d,%d] = %.12g, should be %.12Lg (scale %.3Lg, pivots %.2Lg) call %d", key, i, j, (double)got, want, big, gr, c); };
      for (int j = 0; j < d.n; j++) cmp(dq[j], g.q[j], tolv, "dq", j, 0);
      for (int i = 0; i < d.m; i++) { int a = d.act[i]; if (a == 2 && fabsl(d.y[i]) < 1e-6L) { EV("zero_multiplier_rows"); cmp((L)dl[i] + du[i], g.b[i], tolv, "dl+du", i, 0); continue; } bool up = a == 1 || (a == 2 && d.y[i] > 0), lo = a == -1 || (a == 2 && d.y[i] < 0); cmp(dl[i], lo ? g.b[i] : 0, tolv, a == 2 ? "dl_eq" : "dl", i, 0); cmp(du[i], up ? g.b[i] : 0, tolv, a == 2 ? "du_eq" : "du", i, 0); EV(a == 2 ? "equality_rows" : a ? "active_rows" : "inactive_rows"); }
      for (int j = 0; j < d.n; j++) { for (I t = Pp.p[j]; t < Pp.p[j + 1]; t++) cmp(Pp.x[t], g.P[Pp.i[t]][j], tolm, "dP", (int)Pp.i[t], j); for (I t = Ap.p[j]; t < Ap.p[j + 1]; t++) cmp(Ap.x[t], g.A[Ap.i[t]][j], tolm, "dA", (int)Ap.i[t], j); }
      EV(worst < 1e-4 ? "err<1e-4" : worst < 1e-2 ? "err<1e-2" : "err>=1e-2");
    }
    CHECK(biteq(keepx, S.x()) && biteq(keepy, S.y()), "solution_changed", "computing derivatives changed the solution"); (void)twin;
  }
#endif
}
