// Independent model of the documented ADMM iteration (Stellato et al.), dense, long double.
#pragma once
#include "common.h"
#include "internals.h"
enum Tri { NO = 0, YES = 1, MAYBE = 2 };
struct RefADMM {
  I n, m; OSQPSettings st; std::vector<VL> P, A; VL q, l, u, D, E; L c = 1;    // scaled problem
  VL x, y, z, xp, yp, zp, dx, dy; L rho; VL rhov; std::vector<VL> K;           // K: Cholesky factor
  VL b1, b2, xt, zt;
  bool ambiguous = false; std::string why;
  L pres = 0, dres = 0, gap = 0, obj = 0, dobj = 0, spres = 0, sdres = 0, sgap = 0, relkkt = 0, lastkkt = INFINITY; VL Ax, Px, Aty; L xPx = 0, qx = 0, SC = 0;
  I iter = 0, status = OSQP_UNSOLVED, rho_updates = 0; L rho_est = 0; std::vector<std::pair<I, L>> rho_log;
  L inf_thr = INF_THR; std::function<bool()> onstep;   // called after every model iteration
  RefADMM(const Prob& pb, const OSQPSettings& s, const ScalingView& sc) : n(pb.n), m(pb.m), st(s) {
    D = sc.D; E = sc.E; c = sc.on ? sc.c : 1;
    P.assign(n, VL(n, 0)); A.assign(m, VL(n, 0)); q.resize(n); l.resize(m); u.resize(m);
    for (I j = 0; j < n; j++) for (I k = pb.P.p[j]; k < pb.P.p[j + 1]; k++) { I i = pb.P.i[k]; L v = c * D[i] * D[j] * pb.P.x[k]; P[i][j] += v; if (i != j) P[j][i] += v; }
    for (I j = 0; j < n; j++) for (I k = pb.A.p[j]; k < pb.A.p[j + 1]; k++) A[pb.A.i[k]][j] += E[pb.A.i[k]] * D[j] * pb.A.x[k];
    for (I j = 0; j < n; j++) q[j] = c * D[j] * pb.q[j];
    for (I i = 0; i < m; i++) { l[i] = E[i] * pb.l[i]; u[i] = E[i] * pb.u[i]; }
    x.assign(n, 0); y.assign(m, 0); z.assign(m, 0); dx.assign(n, 0); dy.assign(m, 0);
    set_rho(clip(st.rho));
  }
  static L clip(L r) { return std::min<L>(std::max<L>(r, (L)1e-6), (L)1e6); }
  void amb(const char* w) { if (!ambiguous) why = w; ambiguous = true; }
  bool set_rho(L r) {
    rho = r; rhov.assign(m, rho);
    if (st.rho_is_vec) for (I i = 0; i < m; i++) {
      if (l[i] < -inf_thr && u[i] > inf_thr) rhov[i] = 1e-6L;
      else { L g = u[i] - l[i]; if (g < 1e-4L) rhov[i] = 1e3L * rho; if (fabsl(g - 1e-4L) < 1e-10L) amb("bound gap"); }
    }
    K.assign(n, VL(n, 0));
    for (I i = 0; i < n; i++) for (I j = 0; j <= i; j++) { L s = P[i][j] + (i == j ? (L)st.sigma : 0); for (I k = 0; k < m; k++) s += A[k][i] * rhov[k] * A[k][j];
      for (I t = 0; t < j; t++) s -= K[i][t] * K[j][t];
      if (i == j) { if (s <= 0) return false; K[i][i] = sqrtl(s); } else K[i][j] = s / K[j][j]; }
    // condition number of the reduced system (infinity norm), from the explicit inverse of the factor
    std::vector<VL> V(n, VL(n, 0)); for (I j = 0; j < n; j++) { V[j][j] = 1 / K[j][j]; for (I i = j + 1; i < n; i++) { L s = 0; for (I k = j; k < i; k++) s -= K[i][k] * V[k][j]; V[i][j] = s / K[i][i]; } }
    L a = 0, b = 0; for (I i = 0; i < n; i++) { L ra = 0, rb = 0; for (I j = 0; j < n; j++) { L s = 0, t = 0; for (I k = 0; k <= std::min(i, j); k++) s += K[i][k] * K[j][k]; for (I k = std::max(i, j); k < n; k++) t += V[k][i] * V[k][j]; ra += fabsl(s); rb += fabsl(t); } a = std::max(a, ra); b = std::max(b, rb); } kappa = a * b; maxkappa = std::max(kappa, maxkappa);
    return true;
  }
  void warm(const VF* x0, const VF* y0) {   // caller's units
    if (x0) { for (I j = 0; j < n; j++) x[j] = (*x0)[j] / D[j]; z = mulAx(x); }
    if (y0) for (I i = 0; i < m; i++) y[i] = c * (*y0)[i] / E[i];
  }
  VL mulAx(const VL& v) const { VL r(m, 0); for (I i = 0; i < m; i++) for (I j = 0; j < n; j++) r[i] += A[i][j] * v[j]; return r; }
  VL mulAty(const VL& v) const { VL r(n, 0); for (I i = 0; i < m; i++) for (I j = 0; j < n; j++) r[j] += A[i][j] * v[i]; return r; }
  VL mulPx(const VL& v) const { VL r(n, 0); for (I i = 0; i < n; i++) for (I j = 0; j < n; j++) r[i] += P[i][j] * v[j]; return r; }
  long steps = 0;
  void step() {
    steps++;
    xp = x; yp = y; zp = z; b1.resize(n); b2.resize(m); xt.resize(n);
    for (I j = 0; j < n; j++) b1[j] = (L)st.sigma * x[j] - q[j];
    for (I i = 0; i < m; i++) b2[i] = z[i] - y[i] / rhov[i];
    VL t(m); for (I i = 0; i < m; i++) t[i] = rhov[i] * b2[i];
    VL r = mulAty(t); for (I j = 0; j < n; j++) r[j] += b1[j];
    for (I i = 0; i < n; i++) { L s = r[i]; for (I k = 0; k < i; k++) s -= K[i][k] * xt[k]; xt[i] = s / K[i][i]; }
    for (I i = n - 1; i >= 0; i--) { L s = xt[i]; for (I k = i + 1; k < n; k++) s -= K[k][i] * xt[k]; xt[i] = s / K[i][i]; }
    zt = mulAx(xt); L al = st.alpha;
    for (I j = 0; j < n; j++) { x[j] = al * xt[j] + (1 - al) * xp[j]; dx[j] = x[j] - xp[j]; }
    for (I i = 0; i < m; i++) { L w = al * zt[i] + (1 - al) * zp[i]; L v = w + yp[i] / rhov[i]; z[i] = std::min(std::max(v, l[i]), u[i]); dy[i] = rhov[i] * (w - z[i]); y[i] = yp[i] + dy[i]; }
  }
  void info() {
    Ax = mulAx(x); Px = mulPx(x); Aty = mulAty(y); spres = sdres = pres = dres = 0; bool un = !st.scaled_termination;
    for (I i = 0; i < m; i++) { L d = fabsl(Ax[i] - z[i]); spres = std::max(spres, d); pres = std::max(pres, un ? d / E[i] : d); }
    for (I j = 0; j < n; j++) { L d = fabsl(q[j] + Px[j] + Aty[j]); sdres = std::max(sdres, d); dres = std::max(dres, un ? d / D[j] / c : d); }
    xPx = dotl(x, Px); qx = dotl(q, x); SC = 0;
    for (I i = 0; i < m; i++) { L v = y[i]; if (l[i] < -inf_thr) v = std::max<L>(v, 0); if (u[i] > inf_thr) v = std::min<L>(v, 0);
      if (fabsl(v) < 1e-15L) v = 0;
      if (v > 0) SC += u[i] * v; else if (v < 0) SC += l[i] * v; }
    obj = (0.5L * xPx + qx) / c; dobj = (-0.5L * xPx - SC) / c; sgap = xPx + qx + SC; gap = sgap / c;
    relkkt = std::max(std::max(dres, pres), gap);
    // magnitudes of the terms the residuals are differences of; running maxima, because rounding errors made earlier persist
    for (I i = 0; i < m; i++) { L t = fabsl(z[i]); for (I j = 0; j < n; j++) t += fabsl(A[i][j]) * (fabsl(x[j]) + fabsl(xt[j])); maxA = std::max(maxA, t); maxAu = std::max(maxAu, un ? t / E[i] : t); }
    L g = 0; for (I i = 0; i < m; i++) { L b = 0; if (fabsl(l[i]) < inf_thr) b = fabsl(l[i]); if (fabsl(u[i]) < inf_thr) b = std::max(b, fabsl(u[i])); g += b * (fabsl(y[i]) + rhov[i] * (fabsl(z[i]) + fabsl(zt[i]))); }
    for (I j = 0; j < n; j++) { L t = fabsl(q[j]); for (I i = 0; i < n; i++) t += fabsl(P[j][i] * x[i]); g += t * fabsl(x[j]); }
    maxG = std::max(maxG, g);
    for (I j = 0; j < n; j++) { L t = fabsl(q[j]); for (I i = 0; i < n; i++) t += fabsl(P[j][i] * x[i]); for (I i = 0; i < m; i++) t += fabsl(A[i][j]) * (fabsl(y[i]) + rhov[i] * (fabsl(z[i]) + fabsl(zt[i]))); maxD = std::max(maxD, t); maxDu = std::max(maxDu, un ? t / D[j] / c : t); }
  }
  Tri less(L a, L b, L floor_) { L t = 1e-6L * (fabsl(a) + fabsl(b)) + floor_; if (fabsl(a - b) <= t) return MAYBE; return a < b ? YES : NO; }
  // 1: a verdict was reached (status set)
  bool check(bool approx) {
    L f = approx ? 10 : 1, ea = f * st.eps_abs, er = f * st.eps_rel, ep = f * st.eps_prim_inf, ed = f * st.eps_dual_inf; bool un = !st.scaled_termination;
    if (pres > 1e30L || dres > 1e30L) { status = OSQP_NON_CVX; return true; }
    auto wn = [&](const VL& v, const VL& w, L s) { L r = 0; for (size_t i = 0; i < v.size(); i++) r = std::max(r, un ? fabsl(v[i]) / w[i] * s : fabsl(v[i])); return r; };
    L nz = wn(z, E, 1), nA = wn(Ax, E, 1), nq = wn(q, D, 1 / c), nP = wn(Px, D, 1 / c), nT = wn(Aty, D, 1 / c);
    L fl = 1e-11L;
    Tri pc = m == 0 ? YES : less(pres, ea + er * std::max(nz, nA), fl * (nz + nA) + nf() * maxAu), dc = less(dres, ea + er * std::max({nq, nP, nT}), fl * (nq + nP + nT) + nf() * maxDu), gc = YES;
    if (st.check_dualgap) { L sc = un ? 1 / c : 1; L mx = std::max({fabsl(xPx), fabsl(qx), fabsl(SC)}) * sc; gc = less(fabsl(un ? gap : sgap), ea + er * mx, 1e-10L * (fabsl(xPx) + fabsl(qx) + fabsl(SC)) * sc + nf() * maxG * sc); }
    Tri pi = NO, di = NO;
    if (pc != YES) pi = pinf(ep); if (dc != YES) di = dinf(ed);
    if (pc == MAYBE || dc == MAYBE || gc == MAYBE) { if (pc != NO && dc != NO && gc != NO) { amb("optimality check"); return false; } }
    if (pc == YES && dc == YES && gc == YES) { status = approx ? OSQP_SOLVED_INACCURATE : OSQP_SOLVED; return true; }
    if (pi == MAYBE || (pc == MAYBE && pi != NO)) { amb("primal infeasibility check"); return false; }
    if (pi == YES) { status = approx ? OSQP_PRIMAL_INFEASIBLE_INACCURATE : OSQP_PRIMAL_INFEASIBLE; return true; }
    if (di == MAYBE || (dc == MAYBE && di != NO)) { amb("dual infeasibility check"); return false; }
    if (di == YES) { status = approx ? OSQP_DUAL_INFEASIBLE_INACCURATE : OSQP_DUAL_INFEASIBLE; return true; }
    return false;
  }
  Tri pinf(L eps) {
    VL v = dy; L ny = 0, nn = 0, s = 0, sa = 0, noise = 0; bool un = !st.scaled_termination;
    for (I i = 0; i < m; i++) { noise = std::max(noise, (fabsl(y[i]) + rhov[i] * (fabsl(z[i]) + fabsl(zp[i]) + fabsl(zt[i]))) * (un ? E[i] : 1)); if (l[i] < -inf_thr) v[i] = std::max<L>(v[i], 0); if (u[i] > inf_thr) v[i] = std::min<L>(v[i], 0);
      nn = std::max(nn, un ? E[i] * fabsl(v[i]) : fabsl(v[i])); if (v[i] > 0) { s += v[i] * u[i]; sa += fabsl(v[i] * u[i]); } else if (v[i] < 0) { s += v[i] * l[i]; sa += fabsl(v[i] * l[i]); } }
    (void)ny; if (nn <= 1e-30L) return nn == 0 ? NO : MAYBE;
    L nz = noise * 1e-12L;
    VL a = mulAty(v); L na = 0, aa = 0; for (I j = 0; j < n; j++) { L t = fabsl(a[j]); if (un) t /= D[j]; na = std::max(na, t); L w = 0; for (I i = 0; i < m; i++) w += fabsl(A[i][j]) * (un ? 1 / D[j] / E[i] : 1); aa = std::max(aa, w); }
    Tri t2 = less(na, eps * nn, nz * (aa + 1));
    if (t2 == NO) return NO;
    L bnd = 0; for (I i = 0; i < m; i++) { if (fabsl(l[i]) < inf_thr) bnd = std::max(bnd, fabsl(l[i]) / (un ? E[i] : 1)); if (fabsl(u[i]) < inf_thr) bnd = std::max(bnd, fabsl(u[i]) / (un ? E[i] : 1)); }
    Tri t1 = less(s, 0, 1e-9L * sa + nz * bnd * m); if (t1 == NO) return NO;
    return (t1 == YES && t2 == YES) ? YES : MAYBE;
  }
  Tri dinf(L eps) {
    bool un = !st.scaled_termination; L nn = 0, noise = 0; for (I j = 0; j < n; j++) { nn = std::max(nn, un ? D[j] * fabsl(dx[j]) : fabsl(dx[j])); noise = std::max(noise, (fabsl(x[j]) + fabsl(xp[j]) + fabsl(xt[j])) * (un ? D[j] : 1)); }
    if (nn <= 1e-30L) return nn == 0 ? NO : MAYBE;
    L nz = noise * 1e-12L + 1e-13L; Tri res = YES; auto acc = [&](Tri t) { if (t == NO || res == NO) res = NO; else if (t == MAYBE) res = MAYBE; };
    L qs = dotl(q, dx), qa = dotabs(q, dx); L nq = 0; for (I j = 0; j < n; j++) nq += fabsl(q[j]) / (un ? D[j] : 1);
    acc(less(qs, 0, 1e-9L * qa + nz * nq));
    VL p = mulPx(dx), a = mulAx(dx); L np = 0, pa = 0; for (I j = 0; j < n; j++) { np = std::max(np, un ? fabsl(p[j]) / D[j] : fabsl(p[j])); L w = 0; for (I k = 0; k < n; k++) w += fabsl(P[j][k]) * (un ? 1 / D[j] / D[k] : 1); pa = std::max(pa, w); }
    acc(less(np, (un ? c : 1) * eps * nn, nz * pa));
    for (I i = 0; i < m; i++) { L v = un ? a[i] / E[i] : a[i], w = 0; for (I k = 0; k < n; k++) w += fabsl(A[i][k]) * (un ? 1 / E[i] / D[k] : 1);
      if (u[i] < inf_thr) acc(less(v, eps * nn, nz * w)); if (l[i] > -inf_thr) acc(less(-v, eps * nn, nz * w)); }
    return res;
  }
  L nf() const { return 1e-16L * std::max<L>(1e4L, 10 * maxkappa) * (1 + steps / 10.0L) * (1 + rho_updates); }   // rounding level of the iterates
  L rho_estimate() {
    auto nrm = [&](const VL& v) { return ninf(v); };
    L p = spres / (std::max(nrm(z), nrm(Ax)) + 1e-30L), d = sdres / (std::max({nrm(q), nrm(Aty), nrm(Px)}) + 1e-30L);
    if (m == 0) p = 0;
    if (d == 0) { noisy_est = true; est_noise = 1e30L; return p == 0 ? 1e-6L : 1e6L; }
    // rounding floor of the two ratios
    
    est_noise = (m == 0 || maxA == 0 ? 0 : spres > 1e-13L ? maxA / spres : 1e30L) + (sdres > 1e-13L ? maxD / sdres : 1e30L); est_noise *= 10 * nf(); noisy_est = est_noise > 1e-3L;
    return clip(rho * sqrtl(p / d));
  }
  L maxA = 0, maxG = 0, maxD = 0, maxAu = 0, maxDu = 0, maxkappa = 1, kappa = 1;   // condition estimate of the reduced system, from its Cholesky factor
  bool noisy_est = false; L est_noise = 0; std::function<L(L)> adopt;   // adopt: let the caller replace a new penalty by the observed one when they agree
  // whole solve; returns false as soon as a decision is too close to call
  bool solve() {
    status = OSQP_UNSOLVED; lastkkt = INFINITY; bool can_check = false; I it = 0;
    I mode = st.adaptive_rho, interval = st.adaptive_rho_interval;
    if (interval == 0) { if (mode == OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS) interval = st.check_termination ? 4 * st.check_termination : 100; else if (mode == OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR) interval = 1; }
    for (it = 1; it <= st.max_iter; it++) {
      rho_log.push_back({it, rho}); step(); iter = it; if (onstep && !onstep()) return false;
      can_check = st.check_termination && it % st.check_termination == 0;
      bool can_adapt = mode && interval && it % interval == 0;
      if (can_check || can_adapt || it == st.max_iter) info();
      if (can_check) { if (check(false)) break; if (ambiguous) return false; }
      if (can_adapt && mode == OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR) { Tri t = lastkkt == INFINITY ? YES : less(relkkt, st.adaptive_rho_fraction * lastkkt, 1e-9L); if (t == MAYBE) { amb("kkt error test"); return false; } can_adapt = t == YES; }
      if (can_adapt) {
        L nr = rho_estimate(); rho_est = nr;
        Tri t1 = less(rho * st.adaptive_rho_tolerance, nr, noisy_est ? 1e30L : 0), t2 = less(nr, rho / st.adaptive_rho_tolerance, noisy_est ? 1e30L : 0);
        if (t1 == MAYBE || t2 == MAYBE) { amb("rho update test"); return false; }
        if (t1 == YES || t2 == YES) { rho_updates++; if (adopt) nr = adopt(nr); if (!set_rho(nr)) { amb("factor"); return false; } lastkkt = relkkt; }
      }
    }
    if (!can_check) { check(false); if (ambiguous) return false; }
    if (status == OSQP_UNSOLVED) { if (!check(true)) { if (ambiguous) return false; status = OSQP_MAX_ITER_REACHED; } }
    rho_est = rho_estimate();
    return true;
  }
  VL ux() const { VL r(n); for (I j = 0; j < n; j++) r[j] = D[j] * x[j]; return r; }
  VL uy() const { VL r(m); for (I i = 0; i < m; i++) r[i] = E[i] * y[i] / c; return r; }
};
