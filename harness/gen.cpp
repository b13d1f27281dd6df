#include "common.h"
#include "internals.h"

static Dense rand_dense(Rng& r, I m, I n, double dens) {
  Dense D(m, std::vector<double>(n, 0));
  for (auto& row : D) for (auto& v : row) if (r.chance(dens)) v = r.gauss();
  return D;
}
// PSD matrix B'B of rank <= k (+ lam I), sparse-ish
static Dense rand_psd(Rng& r, I n, I k, double dens, double lam) {
  Dense B = rand_dense(r, k, n, dens), P(n, std::vector<double>(n, 0));
  for (I i = 0; i < n; i++) for (I j = i; j < n; j++) { double s = 0; for (I t = 0; t < k; t++) s += B[t][i] * B[t][j]; P[i][j] = P[j][i] = s; }
  for (I i = 0; i < n; i++) P[i][i] += lam;
  return P;
}
static void set_P(Prob& p, const Dense& P, Rng* r = nullptr) {
  std::vector<std::vector<char>> keep;
  if (r && r->chance(0.3)) { keep.assign(p.n, std::vector<char>(p.n, 0)); for (auto& k : keep) for (auto& c : k) c = r->chance(0.3); }
  p.P = csc_from_dense(P, p.n, p.n, true, keep.empty() ? nullptr : &keep);
}
static void set_A(Prob& p, const Dense& A, Rng* r = nullptr) {
  std::vector<std::vector<char>> keep;
  if (r && r->chance(0.2)) { keep.assign(p.m, std::vector<char>(p.n, 0)); for (auto& k : keep) for (auto& c : k) c = r->chance(0.2); }
  p.A = csc_from_dense(A, p.m, p.n, false, keep.empty() ? nullptr : &keep);
}
static void refine_q(Prob& p) {   // q := -(P x* + A' y*) in long double
  VL px = mulP(p.P, p.xs), ay = mulAt(p.A, p.ys);
  p.q.resize(p.n);
  for (I j = 0; j < p.n; j++) p.q[j] = (F)(-(px[j] + ay[j]));
}
static void bounds_for_opt(Rng& r, Prob& p, double peq, double pact, double pfree) {
  VL ax = mulA(p.A, p.xs);
  p.l.resize(p.m); p.u.resize(p.m); p.ys.assign(p.m, 0);
  for (I i = 0; i < p.m; i++) {
    F a = (F)ax[i]; double t = r.u01();
    if (t < peq) { p.l[i] = p.u[i] = a; p.ys[i] = (F)r.gauss(); }
    else if (t < peq + pact) {
      F y = (F)r.uni(0.1, 2);
      if (r.chance(0.5)) { p.u[i] = a; p.l[i] = r.chance(0.4) ? -INF : (F)(a - r.uni(0.5, 3)); p.ys[i] = y; }
      else { p.l[i] = a; p.u[i] = r.chance(0.4) ? INF : (F)(a + r.uni(0.5, 3)); p.ys[i] = -y; }
    } else if (t < peq + pact + pfree) { p.l[i] = -INF; p.u[i] = INF; }
    else { p.l[i] = r.chance(0.3) ? -INF : (F)(a - r.uni(0.2, 3)); p.u[i] = r.chance(0.3) ? INF : (F)(a + r.uni(0.2, 3)); }
  }
}
static bool dims(Rng& r, const GenOpt& o, Prob& p, int mmin, int mmax) {
  p.n = r.irange(std::max(1, o.nmin), o.nmax); p.m = r.irange(mmin, mmax);
  if (o.nmax < 8 || !r.chance(o.big)) return false;
  p.n = r.irange(15, 70); p.m = r.irange(std::max(10, mmin), 110); EV("large_problems"); return true;
}
Prob gen_solvable(Rng& r, const GenOpt& o) {
  Prob p; p.kind = K_SOLVABLE; p.hasopt = true;
  bool big = dims(r, o, p, o.mmin, o.mmax);
  double dens = r.pick(std::vector<double>{0.15, 0.4, 0.8, 1.0}); if (big) dens *= 0.2;
  int mode = r.irange(0, 5); Dense P;
  switch (mode) {
    case 0: P = rand_psd(r, p.n, p.n, dens, r.uni(0.1, 1)); p.fam = "qp-strict"; break;
    case 1: P = rand_psd(r, p.n, std::max<I>(1, p.n / 2), dens, 0); p.fam = "qp-psd"; break;
    case 2: P = Dense(p.n, std::vector<double>(p.n, 0)); p.fam = "lp"; break;
    case 3: P = Dense(p.n, std::vector<double>(p.n, 0)); for (I i = 0; i < p.n; i++) P[i][i] = r.chance(0.7) ? r.logu(0.01, 100) : 0; p.fam = "qp-diag"; break;
    case 4: P = rand_psd(r, p.n, p.n, dens, 0.01); p.fam = "qp-ill"; break;
    default: P = rand_psd(r, p.n, p.n, dens, 1); p.fam = "qp"; break;
  }
  Dense A = rand_dense(r, p.m, p.n, dens);
  if (r.chance(0.25)) { p.fam += "-badscale"; for (auto& row : A) { double s = r.logu(1e-3, 1e3); for (auto& v : row) v *= s; } }
  if (r.chance(0.15)) { p.fam += "-costscale"; double s = r.logu(1e-4, 1e4); for (auto& row : P) for (auto& v : row) v *= s; }
  if (p.m && r.chance(0.1)) { p.fam += "-emptyrow"; for (auto& v : A[r.irange(0, (int)p.m - 1)]) v = 0; }
  if (p.m > 1 && r.chance(0.15)) { p.fam += "-duprow"; A[p.m - 1] = A[0]; }
  set_P(p, P, &r); set_A(p, A, &r);
  p.xs.resize(p.n); for (auto& v : p.xs) v = (F)(r.chance(0.1) ? 0 : r.gauss() * 2);
  bounds_for_opt(r, p, r.pick(std::vector<double>{0, 0.2, 0.5}), 0.35, 0.1);
  refine_q(p);
  return p;
}
Prob gen_strict(Rng& r, const GenOpt& o) {
  Prob p; p.kind = K_SOLVABLE; p.hasopt = true; p.strict = true; p.fam = "strict";
  bool big = dims(r, o, p, o.mmin, o.mmax);
  double dens = r.pick(std::vector<double>{0.3, 0.7, 1.0}); if (big) dens *= 0.2;
  set_P(p, rand_psd(r, p.n, p.n, dens, r.uni(0.3, 1.5)));
  set_A(p, rand_dense(r, p.m, p.n, dens), &r);
  p.xs.resize(p.n); for (auto& v : p.xs) v = (F)r.gauss();
  double peq = p.m <= p.n ? r.pick(std::vector<double>{0, 0.3}) : 0;
  bounds_for_opt(r, p, peq, 0.35, 0.08);
  refine_q(p);
  return p;
}
Prob gen_pinf(Rng& r, const GenOpt& o) {
  Prob p; p.kind = K_PINF; p.fam = "pinf";
  bool big = dims(r, o, p, std::max(2, o.mmin), std::max(3, o.mmax));
  double dens = r.pick(std::vector<double>{0.4, 0.8, 1.0}); if (big) dens *= 0.2;
  Dense P = r.chance(0.3) ? Dense(p.n, std::vector<double>(p.n, 0)) : rand_psd(r, p.n, p.n, dens, r.chance(0.5) ? 0.1 : 0);
  Dense A = rand_dense(r, p.m, p.n, dens);
  I k = r.irange(2, (int)std::min<I>(p.m, 5));
  std::vector<I> rows(p.m); for (I i = 0; i < p.m; i++) rows[i] = i;
  for (I i = p.m - 1; i > 0; i--) std::swap(rows[i], rows[r.irange(0, (int)i)]);
  VF v(p.m, 0);
  for (I t = 0; t < k; t++) v[rows[t]] = (F)((r.chance(0.5) ? 1 : -1) * (r.chance(0.4) ? 1.0 : r.uni(0.3, 1)));
  I last = rows[k - 1]; v[last] = r.chance(0.5) ? 1 : -1;
  if (r.chance(0.4)) for (auto& row : A) for (auto& e : row) e = std::round(e * 2);   // integer data: A'v nearly exact
  for (I j = 0; j < p.n; j++) { double s = 0; for (I t = 0; t + 1 < k; t++) s += v[rows[t]] * A[rows[t]][j]; A[last][j] = -s / v[last]; }
  set_P(p, P); set_A(p, A);
  p.l.resize(p.m); p.u.resize(p.m);
  L S = 0; 
  VF x0(p.n); for (auto& e : x0) e = (F)r.gauss();
  VL ax = mulA(p.A, x0);
  for (I i = 0; i < p.m; i++) {
    F c = (F)ax[i];
    p.l[i] = r.chance(0.3) ? -INF : (F)(c - r.uni(0.1, 2)); p.u[i] = r.chance(0.3) ? INF : (F)(c + r.uni(0.1, 2));
  }
  double delta = r.uni(0.5, 5);
  for (I t = 0; t < k; t++) {
    I i = rows[t]; F c = (F)ax[i];
    if (r.chance(0.2)) { p.l[i] = p.u[i] = c; }
    else if (v[i] > 0) { p.u[i] = c; p.l[i] = r.chance(0.5) ? -INF : (F)(c - r.uni(0.1, 2)); }
    else { p.l[i] = c; p.u[i] = r.chance(0.5) ? INF : (F)(c + r.uni(0.1, 2)); }
    if (i != last) S += (L)v[i] * (v[i] > 0 ? p.u[i] : p.l[i]);
  }
  // choose last bound so that S(v) = -delta
  F b = (F)((-(L)delta - S) / v[last]);
  if (v[last] > 0) { p.u[last] = b; if (p.l[last] > b || r.chance(0.5)) p.l[last] = r.chance(0.5) ? -INF : (F)(b - r.uni(0, 1)); }
  else { p.l[last] = b; if (p.u[last] < b || r.chance(0.5)) p.u[last] = r.chance(0.5) ? INF : (F)(b + r.uni(0, 1)); }
  p.q.resize(p.n); for (auto& e : p.q) e = (F)r.gauss();
  p.w = v;
  return p;
}
Prob gen_dinf(Rng& r, const GenOpt& o) {
  Prob p; p.kind = K_DINF; p.fam = "dinf";
  bool big = dims(r, o, p, o.mmin, o.mmax);
  double dens = r.pick(std::vector<double>{0.4, 0.8, 1.0}); if (big) dens *= 0.2;
  VF s(p.n, 0);
  bool axis = r.chance(0.6);
  if (axis) { I k = r.irange(1, (int)std::min<I>(3, p.n)); for (I t = 0; t < k; t++) s[r.irange(0, (int)p.n - 1)] = (F)(r.chance(0.5) ? 1 : -1); }
  else for (auto& e : s) e = (F)r.gauss();
  L ss = dotl(s, s); if (ss == 0) { s[0] = 1; ss = 1; }
  Dense P(p.n, std::vector<double>(p.n, 0));
  if (r.chance(0.75)) {
    Dense B = rand_dense(r, p.n, p.n, dens);
    if (axis) { for (I t = 0; t < p.n; t++) for (I j = 0; j < p.n; j++) if (s[j] != 0) B[t][j] = 0; }
    else for (I t = 0; t < p.n; t++) { L d = 0; for (I j = 0; j < p.n; j++) d += B[t][j] * (L)s[j]; for (I j = 0; j < p.n; j++) B[t][j] = (double)(B[t][j] - d / ss * s[j]); }
    for (I i = 0; i < p.n; i++) for (I j = 0; j < p.n; j++) { double a = 0; for (I t = 0; t < p.n; t++) a += B[t][i] * B[t][j]; P[i][j] = a; }
  }
  set_P(p, P); set_A(p, rand_dense(r, p.m, p.n, dens));
  VF x0(p.n); for (auto& e : x0) e = (F)r.gauss();
  VL ax = mulA(p.A, x0), as = mulA(p.A, s);
  p.l.resize(p.m); p.u.resize(p.m);
  for (I i = 0; i < p.m; i++) {
    F lo = r.chance(0.2) ? -INF : (F)(ax[i] - r.uni(0, 2)), hi = r.chance(0.2) ? INF : (F)(ax[i] + r.uni(0, 2));
    if (fabsl(as[i]) > 1e-12L) { if (as[i] > 0) hi = INF; else lo = -INF; }
    p.l[i] = lo; p.u[i] = hi;
  }
  p.q.resize(p.n); for (auto& e : p.q) e = (F)r.gauss();
  L qs = dotl(p.q, s); double want = r.uni(0.5, 3);
  for (I j = 0; j < p.n; j++) p.q[j] = (F)(p.q[j] - (qs + want) / ss * s[j]);
  p.w = s;
  return p;
}
Prob gen_noncvx(Rng& r, const GenOpt& o) {
  Prob p = gen_solvable(r, o); p.kind = K_NONCVX; p.fam = "noncvx"; p.hasopt = false;
  Dense P = rand_psd(r, p.n, p.n, 0.7, 0.1);
  I k = r.irange(1, (int)std::min<I>(2, p.n));
  for (I t = 0; t < k; t++) { I j = r.irange(0, (int)p.n - 1); P[j][j] = -r.uni(0.5, 5); }
  set_P(p, P);
  return p;
}
Prob gen_struct(Rng& r, int size) {
  Prob p; p.kind = K_SOLVABLE; int t = r.irange(0, 6); int sz = size ? size : r.irange(3, 8);
  auto finish = [&](const Dense& P, const Dense& A) { set_P(p, P); set_A(p, A); };
  if (t == 0) { // lasso: min 1/2||Gx-b||^2 + lam|x|_1, vars (x,y,t)
    I k = sz, d = sz * 2; p.n = k + d + k; p.m = d + 2 * k; p.fam = "lasso";
    Dense G = rand_dense(r, d, k, 0.6), P(p.n, std::vector<double>(p.n, 0)), A(p.m, std::vector<double>(p.n, 0));
    for (I i = 0; i < d; i++) P[k + i][k + i] = 1;
    p.q.assign(p.n, 0); for (I i = 0; i < k; i++) p.q[k + d + i] = (F)r.uni(0.1, 1);
    p.l.assign(p.m, 0); p.u.assign(p.m, 0);
    for (I i = 0; i < d; i++) { for (I j = 0; j < k; j++) A[i][j] = G[i][j]; A[i][k + i] = -1; p.l[i] = p.u[i] = (F)r.gauss(); }
    for (I i = 0; i < k; i++) { A[d + i][i] = 1; A[d + i][k + d + i] = -1; p.l[d + i] = -INF; p.u[d + i] = 0;
      A[d + k + i][i] = 1; A[d + k + i][k + d + i] = 1; p.l[d + k + i] = 0; p.u[d + k + i] = INF; }
    finish(P, A);
  } else if (t == 1) { // portfolio
    I k = sz, f = std::max(1, sz / 2); p.n = k + f; p.m = f + 1 + k; p.fam = "portfolio";
    Dense P(p.n, std::vector<double>(p.n, 0)), A(p.m, std::vector<double>(p.n, 0));
    for (I i = 0; i < k; i++) P[i][i] = r.uni(0.05, 1);
    for (I i = 0; i < f; i++) P[k + i][k + i] = 1;
    p.q.assign(p.n, 0); for (I i = 0; i < k; i++) p.q[i] = (F)-r.gauss() * 0.3;
    p.l.assign(p.m, 0); p.u.assign(p.m, 0);
    for (I i = 0; i < f; i++) { for (I j = 0; j < k; j++) if (r.chance(0.6)) A[i][j] = r.gauss(); A[i][k + i] = -1; }
    for (I j = 0; j < k; j++) A[f][j] = 1; p.l[f] = p.u[f] = 1;
    for (I j = 0; j < k; j++) { A[f + 1 + j][j] = 1; p.l[f + 1 + j] = 0; p.u[f + 1 + j] = r.chance(0.5) ? INF : 1; }
    finish(P, A);
  } else if (t == 2) { // MPC
    I nx = 2, nu = 1, T = sz; p.n = (T + 1) * nx + T * nu; p.m = (T + 1) * nx + p.n; p.fam = "mpc";
    Dense P(p.n, std::vector<double>(p.n, 0)), A(p.m, std::vector<double>(p.n, 0));
    double a[2][2] = {{1, 0.1}, {0, 1}}, b[2] = {0.005, 0.1};
    for (I k = 0; k <= T; k++) for (I i = 0; i < nx; i++) P[k * nx + i][k * nx + i] = r.chance(0.5) ? 1 : 10;
    for (I k = 0; k < T; k++) P[(T + 1) * nx + k][(T + 1) * nx + k] = 0.1;
    p.q.assign(p.n, 0); p.l.assign(p.m, 0); p.u.assign(p.m, 0);
    for (I k = 0; k <= T; k++) for (I i = 0; i < nx; i++) {
      A[k * nx + i][k * nx + i] = -1;
      if (k) { for (I j = 0; j < nx; j++) A[k * nx + i][(k - 1) * nx + j] = a[i][j]; A[k * nx + i][(T + 1) * nx + k - 1] = b[i]; }
      else { p.l[i] = p.u[i] = (F)-r.uni(-1, 1); }
    }
    for (I j = 0; j < p.n; j++) { I i = (T + 1) * nx + j; A[i][j] = 1; bool inp = j >= (T + 1) * nx; p.l[i] = inp ? -1 : -10; p.u[i] = inp ? 1 : 10; }
    finish(P, A);
  } else if (t == 3) { // SVM
    I d = std::max(2, sz / 2), k = sz * 2; p.n = d + k; p.m = 2 * k; p.fam = "svm";
    Dense P(p.n, std::vector<double>(p.n, 0)), A(p.m, std::vector<double>(p.n, 0));
    for (I i = 0; i < d; i++) P[i][i] = 1;
    p.q.assign(p.n, 0); for (I i = 0; i < k; i++) p.q[d + i] = 1;
    p.l.assign(p.m, -INF); p.u.assign(p.m, INF);
    for (I i = 0; i < k; i++) { double b = i % 2 ? 1 : -1; for (I j = 0; j < d; j++) A[i][j] = b * (r.gauss() + b * 0.5); A[i][d + i] = -1; p.u[i] = -1; A[k + i][d + i] = 1; p.l[k + i] = 0; }
    finish(P, A);
  } else if (t == 4) { // huber
    I d = std::max(2, sz / 2), k = sz; p.n = d + 3 * k; p.m = 3 * k; p.fam = "huber";
    Dense P(p.n, std::vector<double>(p.n, 0)), A(p.m, std::vector<double>(p.n, 0));
    for (I i = 0; i < k; i++) P[d + i][d + i] = 2;
    p.q.assign(p.n, 0); for (I i = 0; i < 2 * k; i++) p.q[d + k + i] = 2;
    p.l.assign(p.m, 0); p.u.assign(p.m, INF);
    for (I i = 0; i < k; i++) { for (I j = 0; j < d; j++) A[i][j] = r.gauss(); A[i][d + i] = -1; A[i][d + k + i] = -1; A[i][d + 2 * k + i] = 1; p.l[i] = p.u[i] = (F)r.gauss();
      A[k + i][d + k + i] = 1; A[2 * k + i][d + 2 * k + i] = 1; }
    finish(P, A);
  } else if (t == 5) { // equality QP
    p.n = sz * 2; p.m = sz; p.fam = "eqqp"; finish(rand_psd(r, p.n, p.n, 0.5, 0.05), rand_dense(r, p.m, p.n, 0.6));
    VF x0(p.n); for (auto& e : x0) e = (F)r.gauss(); VL ax = mulA(p.A, x0);
    p.l.resize(p.m); p.u.resize(p.m); for (I i = 0; i < p.m; i++) p.l[i] = p.u[i] = (F)ax[i];
    p.q.resize(p.n); for (auto& e : p.q) e = (F)r.gauss();
  } else { // box LP
    p.n = sz; p.m = sz + 2; p.fam = "boxlp"; Dense A(p.m, std::vector<double>(p.n, 0));
    for (I j = 0; j < p.n; j++) { A[j][j] = 1; for (I t2 = 0; t2 < 2; t2++) A[p.n + t2][j] = r.uni(0, 1); }
    finish(Dense(p.n, std::vector<double>(p.n, 0)), A);
    p.l.assign(p.m, 0); p.u.assign(p.m, 0); for (I j = 0; j < p.n; j++) p.u[j] = (F)r.uni(0.5, 2);
    for (I t2 = 0; t2 < 2; t2++) { p.l[p.n + t2] = -INF; p.u[p.n + t2] = (F)r.uni(1, 3); }
    p.q.resize(p.n); for (auto& e : p.q) e = (F)r.gauss();
  }
  return p;
}
Prob gen_any(Rng& r, const GenOpt& o) {
  int t = r.irange(0, 9);
  if (t <= 3) return gen_solvable(r, o);
  if (t <= 5) return gen_strict(r, o);
  if (t == 6) return gen_pinf(r, o);
  if (t == 7) return gen_dinf(r, o);
  return gen_struct(r);
}
OSQPSettings default_settings() { OSQPSettings s; memset(&s, 0, sizeof s); osqp_set_default_settings(&s); s.verbose = 0; return s; }
OSQPSettings rand_settings(Rng& r, bool direct_only) {
  OSQPSettings s = default_settings();
  I caps = osqp_capabilities();
  if (!direct_only && (caps & OSQP_CAPABILITY_INDIRECT_SOLVER) && r.chance(0.3)) { s.linsys_solver = OSQP_INDIRECT_SOLVER; s.cg_precond = r.chance(0.5) ? OSQP_DIAGONAL_PRECONDITIONER : OSQP_NO_PRECONDITIONER; s.cg_max_iter = r.pick(VI{20, 50, 200}); if (r.chance(0.3)) s.cg_tol_fraction = (F)r.uni(0.05, 0.5); if (r.chance(0.3)) s.cg_tol_reduction = r.irange(1, 12); }
  s.scaling = r.pick(VI{0, 0, 1, 4, 10, 10, 10});
  if (r.chance(0.6)) s.rho = (F)r.logu(1e-3, 1e2);
  if (r.chance(0.05)) s.rho = (F)r.pick(std::vector<double>{1e-9, 1e9});
  if (s.linsys_solver == OSQP_DIRECT_SOLVER && r.chance(0.15)) s.rho_is_vec = 0;
  if (r.chance(0.3)) s.sigma = (F)r.logu(1e-7, 1e-3);
  if (r.chance(0.5)) s.alpha = (F)r.uni(0.8, 1.8);
  s.adaptive_rho = r.pick(VI{0, 1, 1, 1, 3});
  if (r.chance(0.4)) s.adaptive_rho_interval = r.irange(0, 60);
  if (r.chance(0.3)) s.adaptive_rho_tolerance = (F)r.uni(1, 10);
  if (r.chance(0.3)) s.adaptive_rho_fraction = (F)r.uni(0.1, 1.2);
  s.check_termination = r.pick(VI{1, 1, 2, 5, 10, 25, 25, 25, 7, 0});
  F e = (F)r.pick(std::vector<double>{1e-3, 1e-3, 1e-4, 1e-5, 1e-6, 1e-2});
  s.eps_abs = e; s.eps_rel = (F)r.pick(std::vector<double>{1e-3, 1e-4, 1e-6, 0});
  if (r.chance(0.08)) { s.eps_abs = 0; s.eps_rel = (F)1e-4; }
  if (r.chance(0.4)) s.eps_prim_inf = (F)r.logu(1e-7, 1e-2);
  if (r.chance(0.4)) s.eps_dual_inf = (F)r.logu(1e-7, 1e-2);
  s.polishing = r.chance(0.3);
  s.check_dualgap = r.chance(0.6);
  if (r.chance(0.12)) s.warm_starting = 0;
  s.scaled_termination = r.chance(0.15);
  s.max_iter = r.pick(VI{4000, 4000, 2000, 500, 100, 20});
  if (r.chance(0.1)) s.delta = (F)r.logu(1e-9, 1e-4);
  if (r.chance(0.3)) s.polish_refine_iter = r.irange(0, 5);
  if (sizeof(F) == 4) { s.eps_abs = std::max<F>(s.eps_abs, (F)1e-3); s.check_dualgap = 0; }
  return s;
}
bool illcond(const Prob& p, const OSQPSettings& s, double rho) {
  if (!(rho > 0)) rho = s.rho; VL nrm(p.m, 0); double w = 0;
  for (I k = 0; k < p.A.nnz(); k++) nrm[p.A.i[k]] += (L)p.A.x[k] * p.A.x[k];
  for (I i = 0; i < p.m; i++) { double a = s.scaling ? std::min<double>(1, (double)nrm[i]) : (double)nrm[i]; double rr = std::min(rho * (p.u[i] - p.l[i] < 1e-3 ? 1e3 : 1), 1e6); w = std::max(w, a * rr / s.sigma); }
  return w > (sizeof(F) == 4 ? 1e4 : 1e11);
}
std::string settings_str(const OSQPSettings& s) {
  return strf("lin=%d scal=%d rho=%g vec=%d sig=%g alpha=%g adapt=%d/%d eps=%g/%g inf=%g/%g chk=%d gap=%d st=%d pol=%d maxit=%d",
    (int)s.linsys_solver, (int)s.scaling, (double)s.rho, (int)s.rho_is_vec, (double)s.sigma, (double)s.alpha, (int)s.adaptive_rho, (int)s.adaptive_rho_interval,
    (double)s.eps_abs, (double)s.eps_rel, (double)s.eps_prim_inf, (double)s.eps_dual_inf, (int)s.check_termination, (int)s.check_dualgap, (int)s.scaled_termination, (int)s.polishing, (int)s.max_iter);
}
std::string prob_str(const Prob& p) { return strf("%s n=%d m=%d nnzP=%d nnzA=%d", p.fam.c_str(), (int)p.n, (int)p.m, (int)p.P.nnz(), (int)p.A.nnz()); }
std::string prob_dump(const Prob& p) {
  std::string s; auto v = [&](const char* nm, const VF& a) { s += nm; s += "=["; for (auto e : a) s += strf("%.17g,", (double)e); s += "] "; };
  auto iv = [&](const char* nm, const VI& a) { s += nm; s += "=["; for (auto e : a) s += strf("%d,", (int)e); s += "] "; };
  iv("Pp", p.P.p); iv("Pi", p.P.i); v("Px", p.P.x); v("q", p.q); iv("Ap", p.A.p); iv("Ai", p.A.i); v("Ax", p.A.x); v("l", p.l); v("u", p.u); return s;
}
VF near(Rng& r, const VF& v, double s) { VF w = v; for (auto& e : w) e = (F)(e + s * r.gauss()); return w; }
Snap snap(const Solver& S, I flag) {
  Snap k; k.flag = flag; k.info = *S.s->info; k.ok = true;
  if (S.s->solution) { k.x = S.x(); k.y = S.y(); k.pc = S.pc(); k.dc = S.dc(); }
  return k;
}
static std::string vdiff(const char* nm, const VF& a, const VF& b, double tol) {
  if (a.size() != b.size()) return strf("%s size", nm);
  L sc = 0; for (auto e : a) if (fabsl((L)e) < 1e8L) sc = std::max(sc, fabsl((L)e));
  for (size_t i = 0; i < a.size(); i++) {
    if (memcmp(&a[i], &b[i], sizeof(F)) == 0 || a[i] == b[i]) continue;
    if (tol > 0 && fabsl((L)a[i] - b[i]) <= tol * (1 + sc)) continue;
    return strf("%s[%d]: %.17g vs %.17g", nm, (int)i, (double)a[i], (double)b[i]);
  }
  return "";
}
static bool feq(F a, F b, double tol, L sc) {
  if (a == b || (std::isnan(a) && std::isnan(b))) return true;
  return tol > 0 && fabsl((L)a - b) <= tol * (1 + std::max(sc, fabsl((L)a)));
}
std::string snap_diff(const Snap& a, const Snap& b, double tol, bool ignore_pdint) {
  if (a.flag != b.flag) return strf("return code %d vs %d", (int)a.flag, (int)b.flag);
  if (a.info.status_val != b.info.status_val) return strf("status %d vs %d", (int)a.info.status_val, (int)b.info.status_val);
  if (strcmp(a.info.status, b.info.status)) return "status string";
  if (a.info.iter != b.info.iter) return strf("iter %d vs %d", (int)a.info.iter, (int)b.info.iter);
  if (a.info.status_polish != b.info.status_polish) return strf("status_polish %d vs %d", (int)a.info.status_polish, (int)b.info.status_polish);
  if (a.info.rho_updates != b.info.rho_updates) return strf("rho_updates %d vs %d", (int)a.info.rho_updates, (int)b.info.rho_updates);
  std::string d;
  if (!(d = vdiff("x", a.x, b.x, tol)).empty()) return d;
  if (!(d = vdiff("y", a.y, b.y, tol)).empty()) return d;
  if (!(d = vdiff("prim_inf_cert", a.pc, b.pc, tol)).empty()) return d;
  if (!(d = vdiff("dual_inf_cert", a.dc, b.dc, tol)).empty()) return d;
  L sc = ninf(a.x) + ninf(a.y); if (!(sc < 1e8L)) sc = 0;
#define FE(f) if (!feq(a.info.f, b.info.f, tol, sc * sc)) return strf(#f " %.17g vs %.17g", (double)a.info.f, (double)b.info.f);
  FE(obj_val) FE(dual_obj_val) FE(prim_res) FE(dual_res) FE(duality_gap)
  if (tol == 0) { FE(rho_estimate) FE(rel_kkt_error) if (!ignore_pdint) { FE(primdual_int) } }
#undef FE
  return "";
}
static const char* STAT[] = {"", "solved", "solved inaccurate", "primal infeasible", "primal infeasible inaccurate", "dual infeasible", "dual infeasible inaccurate",
  "maximum iterations reached", "run time limit reached", "problem non convex", "interrupted", "unsolved"};

void oracle_outcome(const Prob& pb, const OSQPSettings& st, const Solver& S, const char* tag, int what) {
  const OSQPInfo& in = *S.s->info; I sv = in.status_val;
  std::string T(tag);
  EV(strf("status:%s", sv >= 1 && sv <= 11 ? STAT[sv] : "?").c_str());
  const L em = eps_m();
  ScalingView sc = scaling_of(S.s);
  bool sterm = sc.on && st.scaled_termination;
  VF x = S.x(), y = S.y(), pc = S.pc(), dc = S.dc();
  L f = (sv == OSQP_SOLVED_INACCURATE || sv == OSQP_PRIMAL_INFEASIBLE_INACCURATE || sv == OSQP_DUAL_INFEASIBLE_INACCURATE) ? 10 : 1;
  auto allnan = [&](const VF& v) { for (auto e : v) if (!(e == (F)OSQP_NAN || std::isnan(e))) return false; return true; };
  if (what & O_INFO) {
    CHECK(sv >= 1 && sv <= 11 && !strcmp(in.status, STAT[sv]), "status_string" , "%s: status_val %d but string '%s'", tag, (int)sv, in.status);
    CHECK(in.iter >= 1 && in.iter <= st.max_iter, "iter_range", "%s: iter=%d max_iter=%d", tag, (int)in.iter, (int)st.max_iter);
    CHECK(in.rho_estimate >= OSQP_RHO_MIN * (1 - 1e-6) && in.rho_estimate <= OSQP_RHO_MAX * (1 + 1e-6), "rho_estimate_range", "%s: rho_estimate=%g", tag, (double)in.rho_estimate);
    CHECK(in.rho_updates >= 0, "rho_updates_neg", "%s: %d", tag, (int)in.rho_updates);
  }
  if (sv == OSQP_SOLVED || sv == OSQP_SOLVED_INACCURATE || sv == OSQP_MAX_ITER_REACHED || sv == OSQP_TIME_LIMIT_REACHED) {
    if (!allfinite(x) || !allfinite(y) || ninf(x) > 1e25L || ninf(y) > 1e25L) { CHECK(sv != OSQP_SOLVED && sv != OSQP_SOLVED_INACCURATE, "nonfinite_solution", "%s: status %d with non-finite point", tag, (int)sv); return; }
    Resid R = residuals(pb, x, y);
    L rAx = 300 * em * R.eAx + 1e-290L, rD = 300 * em * R.eD + 1e-290L, rO = 1000 * em * R.eO + 1e-290L;
    // finite but huge bounds amplify rounding of y in the support function; add that explicitly
    L bsum = 0; for (I i = 0; i < pb.m; i++) { if (fabsl((L)pb.l[i]) < INF_THR) bsum += fabsl((L)pb.l[i]) / sc.E[i] ; if (fabsl((L)pb.u[i]) < INF_THR) bsum += fabsl((L)pb.u[i]) / sc.E[i]; }
    L esum = 0; for (I i = 0; i < pb.m; i++) esum = std::max(esum, sc.E[i]);
    rO += 1e-14L * bsum * esum * esum / sc.c;
    for (I i = 0; i < pb.m; i++) { L b = 0; if (fabsl((L)pb.l[i]) < INF_THR) b = std::max(b, fabsl((L)pb.l[i])); if (fabsl((L)pb.u[i]) < INF_THR) b = std::max(b, fabsl((L)pb.u[i])); rAx = std::max(rAx, 300 * em * b); }
    // z as the solver holds it, in the caller's units
    VF zs = work_vec_z(S.s); VL z(pb.m); L pres = 0, presS = 0, nz = 0, nzS = 0, nAxS = 0, zout = 0;
    for (I i = 0; i < pb.m; i++) { z[i] = (L)zs[i] / sc.E[i]; L d = fabsl(R.Ax[i] - z[i]); pres = std::max(pres, d); presS = std::max(presS, d * sc.E[i]); nz = std::max(nz, fabsl(z[i])); nzS = std::max(nzS, fabsl((L)zs[i])); nAxS = std::max(nAxS, fabsl(R.Ax[i]) * sc.E[i]);
      L o = 0; if (z[i] < pb.l[i]) o = pb.l[i] - z[i]; if (z[i] > pb.u[i]) o = z[i] - pb.u[i]; if (o > 300 * em * (fabsl(z[i]) + 1e-300L)) zout = std::max(zout, o); }
    L dual = R.dual, mAty = R.nAty, mPx = R.nPx, mq = R.nq, gap = R.gap, gS = 1;
    L viol = R.viol, mAx = std::max(R.nAx, nz), rDt = rD, rPt = rAx;
    if (sterm) {
      L maxE = 0, maxD = 0; for (auto e : sc.E) maxE = std::max(maxE, e); for (auto e : sc.D) maxD = std::max(maxD, e);
      auto wn = [&](const VL& v) { L r = 0; for (size_t j = 0; j < v.size(); j++) r = std::max(r, fabsl(v[j]) * sc.D[j]); return r * sc.c; };
      dual = wn(R.dres); mAty = wn(R.Aty); mPx = wn(R.Px); mq = wn(VL(pb.q.begin(), pb.q.end())); gS = sc.c; gap *= gS;
      viol = 0; for (I i = 0; i < pb.m; i++) { L v = 0; if (R.Ax[i] < pb.l[i]) v = pb.l[i] - R.Ax[i]; if (R.Ax[i] > pb.u[i]) v = R.Ax[i] - pb.u[i]; viol = std::max(viol, v * sc.E[i]); }
      mAx = std::max(nAxS, nzS); pres = presS; rPt = rAx * maxE; rDt = rD * sc.c * maxD;
    }
    L rOt = rO * gS;
    L SCm = std::max({fabsl(R.xPx), fabsl(R.qx), fabsl(R.SC)}) * gS;
    bool polished = in.status_polish == OSQP_POLISH_SUCCESS && st.polishing && sv == OSQP_SOLVED;
    if ((what & O_OPT) && f * st.eps_rel < 0.5L && (sv == OSQP_SOLVED || sv == OSQP_SOLVED_INACCURATE)) {
      EV("optimality_verdicts");
      L slack = 1 + 1e-6L; bool skip = false;
      if (polished) { slack = 20; if (st.eps_abs < 1e-7 || pb.fam.find("badscale") != std::string::npos || S.s->settings->rho > 1e4 || S.s->settings->rho < 1e-4 || illcond(pb, st, S.s->settings->rho)) { skip = true; EV("polished_tol_not_judged"); } }   // polish keeps residuals below the iterate's, whose relative tolerance may have been far looser (P13 compares with the iterate)
      if (!skip) {
        L tolP = f * (st.eps_abs + st.eps_rel * mAx), tolD = f * (st.eps_abs + st.eps_rel * std::max({mq, mAty, mPx})), tolG = f * (st.eps_abs + st.eps_rel * SCm);
        CHECK(viol <= tolP * slack + rPt, "primal_tol", "%s: constraint violation %.6Lg exceeds tolerance %.6Lg (info prim_res %g)", tag, viol, tolP, (double)in.prim_res);
        CHECK(dual <= tolD * slack + rDt, "dual_tol", "%s: dual residual %.6Lg exceeds tolerance %.6Lg (info %g)", tag, dual, tolD, (double)in.dual_res);
        if (st.check_dualgap && polished) { EV("polished_gap"); if (fabsl(gap) > tolG * slack + rOt) EV("polished_gap_bad"); if (fabsl(gap) > 100*tolG + rOt) EV("polished_gap_bad100"); }
        if (st.check_dualgap && !polished) CHECK(fabsl(gap) <= tolG * slack + rOt, "gap_tol", "%s: duality gap %.6Lg exceeds tolerance %.6Lg (info %g)", tag, gap, tolG, (double)in.duality_gap);
        // dual sign / complementarity (a polished pair is only required to do well on the residuals)
        if (polished) goto signs_done;
        {
        L ny = ninf(y), rho = std::max<L>(1, S.s->settings->rho * 1000.0L), maxE = 1, minE = 1; for (auto e : sc.E) { maxE = std::max(maxE, e); minE = std::min(minE, e); }
        L ytol = 1e-6L * (1e-3L + ny) + 1e-11L * rho * (R.nAx + nz + 1e-6L) * maxE * maxE / sc.c;
        L ctol = (sterm ? tolP * 2 / minE : tolP * 2) * slack + 4 * rAx;
        for (I i = 0; i < pb.m; i++) {
          if (y[i] > ytol) CHECK(pb.u[i] < INF_THR && fabsl(R.Ax[i] - pb.u[i]) <= ctol, "dual_sign", "%s: y[%d]=%g>0 but constraint value %.9Lg is not at its upper bound %g", tag, (int)i, (double)y[i], R.Ax[i], (double)pb.u[i]);
          if (y[i] < -ytol) CHECK(pb.l[i] > -INF_THR && fabsl(R.Ax[i] - pb.l[i]) <= ctol, "dual_sign", "%s: y[%d]=%g<0 but constraint value %.9Lg is not at its lower bound %g", tag, (int)i, (double)y[i], R.Ax[i], (double)pb.l[i]);
        }
        }
        signs_done:;
      }
    }
    if (what & O_INFO) {
      L rel = 1e-7L; if (sizeof(F) == 4) rel = 1e-3L;
      CHECK(fabsl(in.obj_val - R.obj) <= rel * 1e-2L * fabsl(R.obj) + rO, "obj_val", "%s: obj_val=%.15g but the returned x has objective %.15Lg", tag, (double)in.obj_val, R.obj);
      CHECK(fabsl(in.dual_obj_val - R.dobj) <= rel * 1e-2L * fabsl(R.dobj) + rO + 1e-9L * R.eO, "dual_obj_val", "%s: dual_obj_val=%.15g but the returned (x,y) gives %.15Lg", tag, (double)in.dual_obj_val, R.dobj);
      CHECK(fabsl(in.duality_gap - R.gap) <= rel * fabsl(R.gap) + rO + 1e-9L * R.eO, "duality_gap", "%s: duality_gap=%.15g but the returned pair gives %.15Lg", tag, (double)in.duality_gap, R.gap);
      CHECK(fabsl(((L)in.obj_val - in.dual_obj_val) - in.duality_gap) <= rel * fabsl((L)in.duality_gap) + rO, "gap_consistency", "%s: obj %.15g - dual obj %.15g != gap %.15g", tag, (double)in.obj_val, (double)in.dual_obj_val, (double)in.duality_gap);
      CHECK(fabsl(in.dual_res - dual) <= rel * dual + rDt, "dual_res", "%s: dual_res=%.12g but the returned pair gives %.12Lg", tag, (double)in.dual_res, dual);
      CHECK(in.prim_res >= viol * (1 - rel) - rPt, "prim_res_understated", "%s: prim_res=%.12g but the returned x violates constraints by %.12Lg", tag, (double)in.prim_res, viol);
      CHECK(fabsl(in.prim_res - pres) <= rel * pres + rPt, "prim_res", "%s: prim_res=%.12g but ||Ax-z||=%.12Lg", tag, (double)in.prim_res, pres);
      CHECK(zout <= rAx, "z_outside", "%s: projected constraint value outside [l,u] by %Lg", tag, zout);
      if (pb.m == 0) CHECK(in.prim_res == 0, "prim_res_m0", "%s: %g", tag, (double)in.prim_res);
      CHECK(allnan(pc) && allnan(dc), "cert_not_nan", "%s: certificates not marked as absent although a point was returned", tag);
    }
  } else if (sv == OSQP_PRIMAL_INFEASIBLE || sv == OSQP_PRIMAL_INFEASIBLE_INACCURATE) {
    if (what & O_PINF) {
      EV("pinf_certificates");
      CHECK(allfinite(pc) && fabsl(ninf(pc) - 1) <= 1e-9L + 4 * em, "pinf_norm", "%s: certificate norm %Lg, expected 1", tag, ninf(pc));
      VL atv = mulAt(pb.A, pc), aa = absAt(pb.A, pc); L nn = ninf(pc), na = ninf(atv);
      if (sterm) { na = 0; for (I j = 0; j < pb.n; j++) na = std::max(na, fabsl(atv[j]) * sc.D[j]); nn = 0; for (I i = 0; i < pb.m; i++) nn = std::max(nn, fabsl((L)pc[i]) / sc.E[i]); }
      L rnd = 300 * em * ninf(aa); if (sterm) { L mD = 0; for (auto e : sc.D) mD = std::max(mD, e); rnd *= mD; }
      CHECK(na <= f * st.eps_prim_inf * nn * (1 + 1e-6L) + rnd, "pinf_Atv", "%s: ||A'v||=%.9Lg > eps*||v||=%.9Lg", tag, na, f * st.eps_prim_inf * nn);
      L s = 0, sa = 0; bool bad = false;
      for (I i = 0; i < pb.m; i++) { L v = pc[i]; if (v > 0) { if (pb.u[i] >= INF_THR) bad = true; else { s += v * pb.u[i]; sa += fabsl(v * pb.u[i]); } } if (v < 0) { if (pb.l[i] <= -INF_THR) bad = true; else { s += v * pb.l[i]; sa += fabsl(v * pb.l[i]); } } }
      CHECK(!bad, "pinf_sign", "%s: certificate uses an absent bound", tag);
      CHECK(s < 0 || s <= 300 * em * sa, "pinf_support", "%s: u'v+ + l'v- = %.12Lg is not negative", tag, s);
    }
    if (what & O_INFO) {
      CHECK(allnan(x) && allnan(y) && allnan(dc), "pinf_nan", "%s: x/y/dual certificate not marked absent", tag);
      CHECK(in.obj_val == (F)OSQP_INFTY, "pinf_obj", "%s: obj_val=%g", tag, (double)in.obj_val);
    }
  } else if (sv == OSQP_DUAL_INFEASIBLE || sv == OSQP_DUAL_INFEASIBLE_INACCURATE) {
    if (what & O_DINF) {
      EV("dinf_certificates");
      CHECK(allfinite(dc) && fabsl(ninf(dc) - 1) <= 1e-9L + 4 * em, "dinf_norm", "%s: certificate norm %Lg, expected 1", tag, ninf(dc));
      VL ps = mulP(pb.P, dc), as = mulA(pb.A, dc), pa = absP(pb.P, dc), aa = absA(pb.A, dc); L qs = dotl(pb.q, dc), nn = ninf(dc), np = ninf(ps);
      L rp = 300 * em * ninf(pa), ra = 300 * em * ninf(aa);
      if (sterm) { np = 0; for (I j = 0; j < pb.n; j++) np = std::max(np, fabsl(ps[j]) * sc.D[j] * sc.c); nn = 0; for (I j = 0; j < pb.n; j++) nn = std::max(nn, fabsl((L)dc[j]) / sc.D[j]); for (I i = 0; i < pb.m; i++) as[i] *= sc.E[i];
        L mD = 0, mE = 0; for (auto e : sc.D) mD = std::max(mD, e); for (auto e : sc.E) mE = std::max(mE, e); rp *= mD * sc.c; ra *= mE; }
      L tol = f * st.eps_dual_inf * nn;
      CHECK(np <= tol * (1 + 1e-6L) + rp, "dinf_P", "%s: ||P s||=%.9Lg > %.9Lg", tag, np, tol);
      CHECK(qs < 300 * em * dotabs(pb.q, dc), "dinf_q", "%s: q's=%.9Lg not negative", tag, qs);
      for (I i = 0; i < pb.m; i++) {
        if (pb.u[i] < INF_THR) CHECK(as[i] <= tol * (1 + 1e-6L) + ra, "dinf_A", "%s: (A s)[%d]=%.9Lg > eps=%.9Lg with finite upper bound", tag, (int)i, as[i], tol);
        if (pb.l[i] > -INF_THR) CHECK(as[i] >= -tol * (1 + 1e-6L) - ra, "dinf_A", "%s: (A s)[%d]=%.9Lg < -eps=%.9Lg with finite lower bound", tag, (int)i, as[i], -tol);
      }
    }
    if (what & O_INFO) {
      CHECK(allnan(x) && allnan(y) && allnan(pc), "dinf_nan", "%s: x/y/primal certificate not marked absent", tag);
      CHECK(in.obj_val == -(F)OSQP_INFTY, "dinf_obj", "%s: obj_val=%g", tag, (double)in.obj_val);
    }
  }
}
