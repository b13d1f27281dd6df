// The iteration against an independent extended-precision model (P25), and the penalty rule (P29).
#include "history.h"
#include "refadmm.h"
static bool tame(const Prob& p) { return p.fam.find("scale") == std::string::npos && p.fam.find("ill") == std::string::npos; }
static Prob tame_problem(Rng& r) {
  GenOpt o; o.nmax = 9; o.mmax = 12;
  for (;;) { Prob p = r.chance(0.15) ? gen_pinf(r, o) : r.chance(0.15) ? gen_dinf(r, o) : r.chance(0.25) ? gen_strict(r, o) : r.chance(0.8) ? gen_solvable(r, o) : gen_struct(r, 3); if (tame(p) && p.n <= 24 && p.m <= 40) return p; }
}
static OSQPSettings model_settings(Rng& r) {
  OSQPSettings s = rand_settings(r, true); s.polishing = 0; s.max_iter = r.pick(VI{3, 20, 60, 150, 250, 400}); s.time_limit = 1e10;
  if (s.rho > 1e3 || s.rho < 1e-4) s.rho = (F)0.1;
  if (s.sigma < 1e-5 && r.chance(0.6)) s.sigma = (F)r.logu(1e-5, 1e-2);
  if (!(osqp_capabilities() & OSQP_CAPABILITY_INDIRECT_SOLVER)) s.sigma = std::max<F>(s.sigma, (F)1e-4);   // builtin: factorisation without pivoting, measured by P24 instead
  if (s.adaptive_rho == 2) s.adaptive_rho = 1;
  if (r.chance(0.3)) s.warm_starting = 0;
  return s;
}
struct StepLog { VF rhs, sol; F rho; VF rv; };
static void run_model(Rng& r, bool p29) {
  Prob pb = tame_problem(r); OSQPSettings st = model_settings(r);
  if (p29) { if (st.adaptive_rho == 0) st.adaptive_rho = r.chance(0.5) ? 1 : 3; if (r.chance(0.6)) st.adaptive_rho_interval = r.irange(1, 12); if (r.chance(0.4)) st.rho = (F)r.logu(1e-3, 1e3); if (r.chance(0.4)) st.adaptive_rho_tolerance = (F)r.uni(1, 3); if (r.chance(0.5)) { st.eps_abs = (F)1e-7; st.eps_rel = 0; } }
  G.note = prob_str(pb) + " | " + settings_str(st); if (G.verbose) G.note += " || " + prob_dump(pb);
  SIG(pb.fam + strf("%d %d ", (int)pb.n, (int)pb.m) + settings_str(st));
  Solver S(pb, st); if (S.flag) { if (illcond(pb, st)) INCONC("penalty lost in rounding"); else VIOL("setup_failed", strf("%d", (int)S.flag)); return; }
  RefADMM R(pb, st, scaling_of(S.s));
  int nsolve = r.irange(1, 3); I ru0 = 0;
  for (int k = 0; k < nsolve; k++) {
    if (r.chance(0.3)) { VF x(pb.n), y(pb.m); for (auto& e : x) e = (F)r.gauss(); for (auto& e : y) e = (F)r.gauss(); bool hx = r.chance(0.7), hy = pb.m && (!hx || r.chance(0.6)); if (!hx && !hy) hx = true; osqp_warm_start(S.s, hx ? x.data() : nullptr, hy ? y.data() : nullptr); st.warm_starting = 1; R.st.warm_starting = 1; R.warm(hx ? &x : nullptr, hy ? &y : nullptr); G.note += strf(" warm%d%d", hx, hy); }
    std::vector<StepLog> log; I f;
    { OSQPSolver* s = S.s; Hooked h(s, [&](const VF& rhs, const VF& sol, I, I) { log.push_back({rhs, sol, s->settings->rho, rho_of(s)}); }); f = S.solve(); }
    EV("solves"); EV("linear_solves", (long)log.size());
    if (f) { if (illcond(pb, st, S.s->settings->rho)) INCONC("penalty lost in rounding"); else VIOL("solve_failed", strf("%d", (int)f)); return; }
    if (!R.st.warm_starting) { std::fill(R.x.begin(), R.x.end(), 0); std::fill(R.y.begin(), R.y.end(), 0); std::fill(R.z.begin(), R.z.end(), 0); }
    size_t it = 0; bool bad = false; L tol = 1e-6L; std::map<std::string, L> seen;
    auto cmp = [&](const char* nm, const F* a, const VL& b, L ref) {
      L& sc = seen[nm]; sc = std::max(sc, ref); for (auto e : b) sc = std::max(sc, fabsl(e));
      for (size_t i = 0; i < b.size(); i++) { EV("oracle_checks"); if (!(fabsl((L)a[i] - b[i]) <= tol * sc + 1e-9L)) { VIOL(strf("iterate_%s", nm), strf("solve %d, iteration %d: %s[%d]=%.15g, the documented iteration gives %.15Lg", k, (int)it + 1, nm, (int)i, (double)a[i], b[i])); bad = true; return; } }
    };
    R.onstep = [&]() {
      if (it >= log.size()) return true;
      tol = std::max<L>(1e-6L, 1e-12L * R.maxkappa * (10 + R.steps));   // factorisation without pivoting, errors add up
      if (tol > 1e-2L) { R.amb("ill-conditioned system"); return false; }
      StepLog& g = log[it]; EV("iterations_compared");
      L ra = std::max({ninf(R.xp), ninf(R.zp), ninf(R.xt), ninf(R.zt), ninf(R.b2)});
      if (fabsl(g.rho - R.rho) > 1e-7L * R.rho) { VIOL("penalty_differs", strf("solve %d, iteration %d: penalty %.15g, the documented rule gives %.15Lg", k, (int)it + 1, (double)g.rho, R.rho)); bad = true; }
      if (!bad) for (I i = 0; i < pb.m; i++) { EV("oracle_checks"); if (fabsl(g.rv[i] - R.rhov[i]) > 1e-6L * R.rhov[i]) { VIOL("penalty_vector", strf("solve %d, iteration %d: penalty of row %d is %.9g, expected %.9Lg", k, (int)it + 1, (int)i, (double)g.rv[i], R.rhov[i])); bad = true; break; } }
      if (!bad && !p29) cmp("rhs_x", g.rhs.data(), R.b1, std::max(ninf(R.q), (L)R.st.sigma * ra));
      if (!bad && !p29) cmp("rhs_z", g.rhs.data() + pb.n, R.b2, ra);
      if (!bad && !p29) cmp("x_tilde", g.sol.data(), R.xt, ra);
      if (!bad && !p29) cmp("z_tilde", g.sol.data() + pb.n, R.zt, ra);
      it++; return !bad;
    };
    R.adopt = [&](L nr) -> L { L got = it < log.size() ? (L)log[it].rho : (L)S.s->settings->rho; return fabsl(got - nr) <= (1e-3L + 30 * R.est_noise) * nr ? got : nr; };
    bool ok = R.solve(); if (bad) return;
    if (!ok) { INCONC(R.why); return; }
    const OSQPInfo& in = *S.s->info; EV("runs_compared");
    if (in.status_val != R.status || in.iter != R.iter) { VIOL("verdict_differs", strf("solve %d: status %d after %d iterations, the documented algorithm gives status %d after %d", k, (int)in.status_val, (int)in.iter, (int)R.status, (int)R.iter)); return; }
    CHECK(in.rho_updates - (k ? ru0 : 0) == R.rho_updates - (k ? ru0 : 0), "rho_updates", "solve %d: %d penalty updates, the documented rule gives %d", k, (int)in.rho_updates, (int)R.rho_updates);
    CHECK(fabsl(S.s->settings->rho - R.rho) <= 1e-6L * R.rho, "final_penalty", "solve %d: penalty %.12g after the solve, expected %.12Lg", k, (double)S.s->settings->rho, R.rho);
    if (!R.noisy_est && R.rho_est > 2e-6L && R.rho_est < 0.5e6L) CHECK(fabsl(in.rho_estimate - R.rho_est) <= (1e-3L + 30 * R.est_noise) * R.rho_est, "rho_estimate", "solve %d: rho_estimate %.12g, expected %.12Lg", k, (double)in.rho_estimate, R.rho_est);
    ru0 = in.rho_updates;
    if (R.rho_updates) EV("adaptive_runs");
    if (p29) { if (!has_sol(R.status)) return; continue; }
    if (has_sol(R.status)) {
      VL ux = R.ux(), uy = R.uy(); VF x = S.x(), y = S.y(); L sx = 0, sy = 0; for (I j = 0; j < pb.n; j++) sx = std::max(sx, fabsl(R.x[j])); sx = std::max(sx, seen["x_tilde"]); 
      for (I j = 0; j < pb.n; j++) CHECK(fabsl(x[j] - ux[j]) <= 3 * tol * (fabsl(ux[j]) + sx * R.D[j]) + 1e-9L * R.D[j], "final_x", "solve %d: x[%d]=%.15g, expected %.15Lg", k, (int)j, (double)x[j], ux[j]);
      sy = 0; for (I i = 0; i < pb.m; i++) sy = std::max(sy, fabsl(R.y[i]) + R.rhov[i] * fabsl(R.z[i]));
      for (I i = 0; i < pb.m; i++) CHECK(fabsl(y[i] - uy[i]) <= (3 * tol * sy + 1e-7L) * R.E[i] / R.c, "final_y", "solve %d: y[%d]=%.15g, expected %.15Lg", k, (int)i, (double)y[i], uy[i]);
    } else { std::fill(R.x.begin(), R.x.end(), 0); std::fill(R.y.begin(), R.y.end(), 0); std::fill(R.z.begin(), R.z.end(), 0); EV("infeasible_runs"); }
  }
}
PROPERTY(P25) { run_model(r, false); }
// ------------------------------------------------------------------ penalty rule, black box
static void rule(Rng& r) {
  GenOpt o; Prob pb = r.chance(0.7) ? gen_solvable(r, o) : gen_any(r, o); OSQPSettings st = rand_settings(r, true);
  st.adaptive_rho = r.pick(VI{0, 1, 2, 2, 3}); st.adaptive_rho_interval = r.chance(0.4) ? 0 : r.irange(0, 40);
  st.adaptive_rho_tolerance = (F)(r.chance(0.2) ? 1 : r.uni(1, 6)); if (r.chance(0.5)) st.adaptive_rho_fraction = (F)r.logu(1e-3, 1);
  if (r.chance(0.5)) st.rho = (F)r.logu(1e-6, 1e6); if (st.max_iter > 1000) st.max_iter = r.pick(VI{300, 1000}); if (r.chance(0.5)) { st.eps_abs = (F)1e-8; st.eps_rel = 0; }
  G.note = prob_str(pb) + " | " + settings_str(st) + strf(" tol=%g frac=%g", (double)st.adaptive_rho_tolerance, (double)st.adaptive_rho_fraction); if (G.verbose) G.note += " || " + prob_dump(pb);
  SIG("rule " + pb.fam + settings_str(st));
  Solver S(pb, st); if (S.flag) return;
  if (st.adaptive_rho_interval == 0 && st.adaptive_rho == 1) {
    I e = st.check_termination ? 4 * st.check_termination : 100, a = S.s->settings->adaptive_rho_interval;
    CHECK(a > 0 && (!st.check_termination || a % st.check_termination == 0), "automatic_interval", "automatic interval %d with checks every %d", (int)a, (int)st.check_termination); (void)e;
  }
  I before = S.s->info->rho_updates;
  int ns = r.irange(1, 2);
  for (int k = 0; k < ns; k++) {
    std::vector<std::pair<I, F>> log; OSQPSolver* s = S.s; long delay = r.chance(0.3) ? r.irange(1, 60) : 0;
    I f; { Hooked h(s, nullptr, [&](I it) { log.push_back({it, s->settings->rho}); if (delay) { struct timespec t = {0, delay * 1000}; nanosleep(&t, 0); } }); f = S.solve(); }
    EV("solves"); EV("linear_solves", (long)log.size()); if (f && !st.polishing) { EV("failed_solves"); return; }
    log.push_back({(I)log.size() + 1, s->settings->rho});
    I iv = s->settings->adaptive_rho_interval, changes = 0;
    if (st.adaptive_rho == 2 && iv) { EV("time_based_intervals"); I c = st.check_termination; CHECK(st.adaptive_rho_interval || (iv > 0 && iv >= c), "time_interval", "time-based interval %d with checks every %d", (int)iv, (int)c); if (st.adaptive_rho_interval) CHECK(iv == st.adaptive_rho_interval, "interval_changed", "configured %d became %d", (int)st.adaptive_rho_interval, (int)iv); }
    else if (st.adaptive_rho_interval) CHECK(iv == st.adaptive_rho_interval, "interval_changed", "configured %d became %d", (int)st.adaptive_rho_interval, (int)iv);
    for (size_t t = 0; t < log.size(); t++) {
      F v = log[t].second; CHECK(v >= OSQP_RHO_MIN * (1 - 1e-12) && v <= OSQP_RHO_MAX * (1 + 1e-12), "penalty_range", "penalty %g at iteration %d", (double)v, (int)log[t].first);
      if (!t || v == log[t - 1].second) continue;
      changes++; EV("penalty_changes"); I at = log[t - 1].first; L ratio = (L)v / log[t - 1].second; if (ratio < 1) ratio = 1 / ratio;
      CHECK(st.adaptive_rho != 0, "changed_while_off", "penalty went from %g to %g after iteration %d with adaptation off", (double)log[t - 1].second, (double)v, (int)at);
      CHECK(iv > 0 && at % iv == 0, "off_schedule", "penalty changed after iteration %d, interval %d", (int)at, (int)iv);
      CHECK(ratio >= st.adaptive_rho_tolerance * (1 - 1e-12L), "below_tolerance", "penalty changed by a factor %.12Lg, tolerance %g", ratio, (double)st.adaptive_rho_tolerance);
    }
    I reported = s->info->rho_updates - before;
    // a change to a value so close that it compares equal cannot be seen from outside
    CHECK(reported == changes || (st.adaptive_rho_tolerance == 1 && reported > changes), "change_count", "%d changes reported, %d seen", (int)reported, (int)changes);
    before = s->info->rho_updates;
  }
}
PROPERTY(P29) { if (r.chance(0.5)) run_model(r, true); else rule(r); }
