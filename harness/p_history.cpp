// API-history properties: updates, rejected calls, starts, status freshness, ownership, determinism, retrieval.
#include "history.h"
#include <malloc.h>
#include "refadmm.h"
#include "refscale.h"
static void note(const Model& m0, const std::vector<Op>& ops, const char* extra = "") {
  G.note = prob_str(m0.pb) + " | " + settings_str(m0.st) + " | " + ops_str(ops) + extra; if (G.verbose) G.note += " || " + prob_dump(m0.pb);
  SIG(m0.pb.fam + settings_str(m0.st) + ops_str(ops));
}
// a fresh setup at the edge of what the factorisation can represent may be refused for rounding
static bool extreme(const OSQPSettings& st) { return st.rho >= 1e4 || st.rho <= 1e-5 || st.sigma < 1e-5; }
static bool polish_lin_err(const Solver& S, const OSQPSettings& st) { return st.polishing && S.s->info->status_polish == OSQP_POLISH_LINSYS_ERROR; }
// an operation that factorises may be refused for rounding at the edge of the penalty range
static bool lost_penalty(const Solver& S, const Op& o) { double r = S.s->settings->rho; return (o.k == RHO || o.k == SOLVE || o.k == VEC || o.k == MAT) && (r > 1e4 || r < 1e-4 || S.s->settings->sigma < 1e-5 || (o.k == RHO && (o.rho > 1e4 || o.rho < 1e-4))); }
static bool apply_all(Solver& S, const std::vector<Op>& ops, bool guard = false) {
  for (auto& o : ops) {
    I f = op_apply(S, o, guard); EV("api_calls");
    if (f && !(o.k == SOLVE && S.s->info->status_polish == OSQP_POLISH_LINSYS_ERROR)) { if (lost_penalty(S, o)) INCONC("factorisation failed at an extreme penalty"); else VIOL("call_failed", strf("%s returned %d on valid arguments", op_str(o).c_str(), (int)f)); return false; }
  }
  return true;
}
static bool has(const std::vector<Op>& v, OpK k) { for (auto& o : v) if (o.k == k) return true; return false; }
static bool data_after_solve(const std::vector<Op>& v) { int ls = -1, ld = -1; for (int i = 0; i < (int)v.size(); i++) { if (v[i].k == SOLVE) ls = i; if (v[i].k == VEC || v[i].k == MAT) ld = i; } return ld > ls || ls < 0; }
static void same(const char* key, const Snap& a, const Snap& b, const char* what, bool ignore_pdint = true, bool ignore_ru = false) {
  Snap c = a; if (ignore_ru) c.info.rho_updates = b.info.rho_updates;
  std::string d = snap_diff(c, b, 0, ignore_pdint); EV("twin_comparisons");
  CHECK(d.empty(), key, "%s: %s", what, d.c_str());
}
// one vector update with the final values of exactly the vectors the history ever replaced
static Op op_vec_touched(const std::vector<Op>& ops, const Prob& fin) { Op o; o.k = VEC; for (auto& p : ops) if (p.k == VEC) { o.hq |= p.hq; o.hl |= p.hl; o.hu |= p.hu; } o.q = fin.q; o.l = fin.l; o.u = fin.u; return o; }
static Snap solve_snap(Solver& S) { I f = S.solve(); EV("solves"); return snap(S, f); }
static Prob any_problem(Rng& r) { GenOpt o; o.nmax = 10; o.mmax = 12; return r.chance(0.6) ? gen_solvable(r, o) : gen_any(r, o); }
static OSQPSettings hist_settings(Rng& r, bool direct = true) { OSQPSettings s = rand_settings(r, direct); if (s.max_iter > 500 && r.chance(0.7)) s.max_iter = r.pick(VI{60, 200, 500}); return s; }

PROPERTY(P07) {
  Prob pb = any_problem(r); OSQPSettings st = hist_settings(r, r.chance(0.6)); if (r.chance(0.5)) st.scaling = 0;
  bool direct = st.linsys_solver == OSQP_DIRECT_SOLVER;
  Model m0{pb, st}, m = m0; std::vector<Op> ops = gen_ops(r, m, (direct || r.chance(0.4) ? M_SOLVE : 0) | M_VEC | M_WARM | M_COLD | M_GET, r.irange(1, 7));
  if (!has(ops, VEC)) { Op o = gen_op(r, m, M_VEC); model_apply(m, o); ops.push_back(o); }
  note(m0, ops);
  Solver A(pb, st); if (A.flag) { if (extreme(st) || illcond(pb, st)) INCONC("extreme penalty"); else VIOL("setup_failed", strf("%d", (int)A.flag)); return; }
  if (!apply_all(A, ops)) return;
  bool iru = !data_after_solve(ops);
  op_apply(A, op_rho(st.rho)); op_apply(A, op_cold());
  if (r.chance(0.5) && direct) {   // the data held is exactly the caller's new data under the scalings
    ScalingView sc = scaling_of(A.s); VF q = data_q(A.s), l = data_l(A.s), u = data_u(A.s); EV("data_views");
    for (I j = 0; j < pb.n; j++) { L e = sc.c * sc.D[j] * m.pb.q[j]; CHECK(fabsl(q[j] - e) <= 8 * eps_m() * fabsl(e) + 1e-300L, "stale_q", "q[%d]", (int)j); }
    for (I i = 0; i < pb.m; i++) { L a = sc.E[i] * m.pb.l[i], b = sc.E[i] * m.pb.u[i];
      CHECK(fabsl(l[i] - a) <= 8 * eps_m() * fabsl(a), "stale_l", "l[%d]=%g expected %Lg", (int)i, (double)l[i], a); CHECK(fabsl(u[i] - b) <= 8 * eps_m() * fabsl(b), "stale_u", "u[%d]=%g expected %Lg", (int)i, (double)u[i], b); }
  }
  Snap a = solve_snap(A);
  oracle_outcome(m.pb, m.st, A, "after updates", O_ALL);
  if (!direct && has(ops, SOLVE)) return;       // the indirect solver starts from its previous solution
  if (!direct) EV("indirect_twins");
  Prob fin = m.pb;
  if (st.scaling == 0) { Solver B(fin, st); if (B.flag) { if (illcond(fin, st)) INCONC("penalty lost in rounding"); else VIOL("setup_failed", "fresh"); return; } same("fresh_differs", a, solve_snap(B), "updated solver vs fresh setup", true, iru); EV("fresh_twins"); }
  else { Solver B(pb, st); op_apply(B, op_vec_touched(ops, fin)); same("path_differs", a, solve_snap(B), "sequence of updates vs one update", true, iru); EV("path_twins"); }
}
PROPERTY(P08) {
  Prob pb = any_problem(r); OSQPSettings st = hist_settings(r, r.chance(0.8)); if (r.chance(0.5)) st.scaling = 0;
  bool direct = st.linsys_solver == OSQP_DIRECT_SOLVER;
  Model m0{pb, st}, m = m0; std::vector<Op> ops = gen_ops(r, m, (direct || r.chance(0.4) ? M_SOLVE : 0) | M_VEC | M_MAT | M_WARM | M_COLD | M_RHO, r.irange(1, 6));
  { Op o = gen_op(r, m, M_MAT | M_VEC); if (o.k != MAT) o = gen_op(r, m, M_MAT); model_apply(m, o); ops.push_back(o); if (r.chance(0.3)) { o = gen_op(r, m, (direct ? M_SOLVE : 0) | M_VEC | M_MAT); model_apply(m, o); ops.push_back(o); } }
  if (!has(ops, MAT)) { EV("no_entries"); return; }
  note(m0, ops);
  Solver A(pb, st); if (A.flag) { if (extreme(st) || illcond(pb, st)) INCONC("extreme penalty"); else VIOL("setup_failed", strf("%d", (int)A.flag)); return; }
  Model t = m0;
  for (auto& o : ops) {
    I f = op_apply(A, o); model_apply(t, o); EV("api_calls");
    if (f && o.k == MAT) { OSQPSettings fs = t.st; fs.rho = A.s->settings->rho; Solver B(t.pb, fs); if (B.flag == OSQP_NONCVX_ERROR) { EV("both_refused"); return; } VIOL("update_rejected", strf("%s returned %d but a fresh setup accepts the data", op_str(o).c_str(), (int)f)); return; }
    if (f && o.k == VEC && st.scaling && o.hl != o.hu) {   // the bound that was kept went through unscaling and rescaling
      bool eq = false; for (I i = 0; i < pb.m; i++) eq |= t.pb.l[i] == t.pb.u[i];
      VIOL(!eq ? "call_failed" : "equal_bound_refused_after_rescaling", strf("%s: a valid one-sided bound update was refused after a matrix update", op_str(o).c_str())); return; }
    if (f && !polish_lin_err(A, st)) { if (lost_penalty(A, o)) INCONC("factorisation failed at an extreme penalty"); else VIOL("call_failed", op_str(o)); return; }
  }
  bool iru = !data_after_solve(ops);
  op_apply(A, op_rho(m.st.rho)); op_apply(A, op_cold());
  Csc P = data_P(A.s), Am = data_A(A.s); ScalingView sc = scaling_of(A.s); EV("data_views");
  L tol = st.scaling ? 1e-10L : 0;
  for (I j = 0; j < pb.n; j++) for (I k = P.p[j]; k < P.p[j + 1]; k++) { L e = sc.c * sc.D[j] * sc.D[P.i[k]] * m.pb.P.x[k]; CHECK(P.i[k] == m.pb.P.i[k] && fabsl(P.x[k] - e) <= tol * fabsl(e), "stale_P", "entry %d of P is %.17g, expected %.17Lg", (int)k, (double)P.x[k], e); }
  for (I j = 0; j < pb.n; j++) for (I k = Am.p[j]; k < Am.p[j + 1]; k++) { L e = sc.E[Am.i[k]] * sc.D[j] * m.pb.A.x[k]; CHECK(Am.i[k] == m.pb.A.i[k] && fabsl(Am.x[k] - e) <= tol * fabsl(e), "stale_A", "entry %d of A is %.17g, expected %.17Lg", (int)k, (double)Am.x[k], e); }
  Snap a = solve_snap(A);
  oracle_outcome(m.pb, m.st, A, "after matrix updates", O_ALL);
  if (!direct && has(ops, SOLVE)) return;
  if (!direct) EV("indirect_twins");
  OSQPSettings fs = m.st; Solver B(m.pb, fs); if (B.flag) { if (extreme(fs) || illcond(m.pb, fs)) INCONC("extreme penalty"); else VIOL("setup_failed", "fresh"); return; }
  if (st.scaling == 0) { same("fresh_differs", a, solve_snap(B), "matrix-updated solver vs fresh setup", true, iru); EV("fresh_twins"); }
  else if (!has(ops, VEC)) {    // vector updates keep the old scaling, so compare only pure matrix histories
    RefScale R(m.pb, st.scaling); if (R.ambiguous) { INCONC("norm at a scaling threshold"); return; } EV("scaling_twins");
    ScalingView sb = scaling_of(B.s);
    for (I j = 0; j < pb.n; j++) CHECK(fabsl(sc.D[j] - sb.D[j]) <= 1e-8L * sb.D[j], "scaling_drift", "D[%d] %.15Lg after updates, fresh setup has %.15Lg", (int)j, sc.D[j], sb.D[j]);
    for (I i = 0; i < pb.m; i++) CHECK(fabsl(sc.E[i] - sb.E[i]) <= 1e-8L * sb.E[i], "scaling_drift", "E[%d] %.15Lg after updates, fresh setup has %.15Lg", (int)i, sc.E[i], sb.E[i]);
    CHECK(fabsl(sc.c - sb.c) <= 1e-8L * sb.c, "scaling_drift", "c %.15Lg vs %.15Lg", sc.c, sb.c);
  }
}
// ------------------------------------------------------------------ rejected calls
static OSQPSettings bad_settings(Rng& r, const OSQPSettings& ok, std::string& what) {
  OSQPSettings s = ok; int t = r.irange(0, 18);
  // plausible but different values elsewhere, so that a partial commit is visible
  s.max_iter = ok.max_iter + 3; s.alpha = (F)1.1; s.eps_abs = (F)(ok.eps_abs * 2 + 1e-9); s.polishing = !ok.polishing; s.check_termination = ok.check_termination + 1; s.delta = ok.delta * 2; s.warm_starting = !ok.warm_starting; s.check_dualgap = !ok.check_dualgap;
#define B(n, e) case n: e; what = #e; break;
  switch (t) {
    B(0, s.max_iter = 0) B(1, s.max_iter = -5) B(2, s.eps_abs = -1) B(3, s.eps_rel = (F)-1e-3) B(4, (s.eps_abs = 0, s.eps_rel = 0)) B(5, s.eps_prim_inf = 0) B(6, s.eps_dual_inf = -1)
    B(7, s.alpha = 2) B(8, s.alpha = 0) B(9, s.alpha = (F)-0.5) B(10, s.delta = 0) B(11, s.polish_refine_iter = -1) B(12, s.verbose = 7) B(13, s.scaled_termination = 2) B(14, s.check_termination = -1)
    B(15, s.warm_starting = 3) B(16, s.time_limit = -1) B(17, s.polishing = 2) B(18, s.check_dualgap = -1)
  }
#undef B
  return s;
}
// one call that must be refused; returns its result and a description
static I rejected_call(Rng& r, Solver& S, const Model& m, std::string& what) {
  const Prob& p = m.pb; I nP = p.P.nnz(), nA = p.A.nnz(); F d = 0; VF big((size_t)std::max(nP, nA) + 8, (F)3); VI idx((size_t)std::max(nP, nA) + 8, 0);
  VF q(p.n); for (auto& e : q) e = (F)r.gauss();
  for (;;) switch (r.irange(0, 9)) {
    case 0: case 1: case 2: {
      if (!p.m) break; I i = r.irange(0, (int)p.m - 1); VF l = near(r, p.l, 0), u = near(r, p.u, 0); int k = r.irange(0, 2); bool wq = r.chance(0.5);
      for (I t = 0; t < p.m; t++) if (r.chance(0.3) && fabsl((L)u[t]) < INF_THR && fabsl((L)l[t]) < INF_THR) { l[t] -= (F)0.25; u[t] += (F)0.25; }
      if (k == 1) u = p.u; if (k == 2) l = p.l;
      if (k == 1 && u[i] > (F)1e20) break; if (k == 2 && l[i] < (F)-1e20) break;
      if (k != 2) { F b = u[i] > (F)1e20 ? (u[i] = 1) : u[i]; l[i] = b + (F)(1e-3 + fabsl((L)b) * 1e-3); } else { F b = l[i]; u[i] = b - (F)(1e-3 + fabsl((L)b) * 1e-3); }
      what = strf("vec%s:%s row %d", wq ? "+q" : "", k == 0 ? "l>u" : k == 1 ? "l" : "u", (int)i);
      return osqp_update_data_vec(S.s, wq ? q.data() : nullptr, k == 2 ? nullptr : l.data(), k == 1 ? nullptr : u.data()); }
    case 3: what = "mat:P n too large"; return osqp_update_data_mat(S.s, big.data(), r.chance(0.5) ? idx.data() : nullptr, nP + r.irange(1, 5), r.chance(0.5) ? big.data() : nullptr, nullptr, nA);
    case 4: what = "mat:A n too large"; return osqp_update_data_mat(S.s, r.chance(0.7) ? big.data() : nullptr, nullptr, nP, big.data(), r.chance(0.5) ? idx.data() : nullptr, nA + r.irange(1, 5));
    case 5: { bool onP = r.chance(0.5); what = onP ? "mat:P n<0" : "mat:A n<0"; return osqp_update_data_mat(S.s, big.data(), idx.data(), onP ? -1 : nP, big.data(), idx.data(), onP ? nA : -2); }
    case 6: { bool onP = r.chance(0.5); if ((onP ? nP : nA) < 2) break; what = onP ? "mat:P partial without index" : "mat:A partial without index";
      return onP ? osqp_update_data_mat(S.s, big.data(), nullptr, r.irange(1, (int)nP - 1), r.chance(0.5) ? big.data() : nullptr, nullptr, nA) : osqp_update_data_mat(S.s, r.chance(0.7) ? big.data() : nullptr, nullptr, nP, big.data(), nullptr, r.irange(1, (int)nA - 1)); }
    case 7: { F v = r.pick(VF{0, -1, (F)-1e-12, -INF}); what = strf("rho=%g", (double)v); return osqp_update_rho(S.s, v); }
    case 8: { if (r.chance(0.1)) { what = "settings NULL"; return osqp_update_settings(S.s, nullptr); } OSQPSettings b = bad_settings(r, m.st, what); what = "settings:" + what; return osqp_update_settings(S.s, &b); }
    default: what = "get_solution(NULL)"; (void)d; return osqp_get_solution(S.s, nullptr);
  }
}
PROPERTY(P09) {
  Prob pb = any_problem(r); OSQPSettings st = hist_settings(r, r.chance(0.8));
  Model m0{pb, st}, m = m0; int mask = M_SOLVE | M_VEC | M_MAT | M_RHO | M_SET | M_WARM | M_COLD;
  if (st.linsys_solver != OSQP_DIRECT_SOLVER) mask &= ~M_SET;
  std::vector<Op> ops; for (int k = r.irange(0, 5); k > 0; k--) { ops.push_back(gen_op(r, m, mask)); model_apply(m, ops.back()); }
  ops.push_back(op_solve()); if (r.chance(0.5)) { ops.push_back(gen_op(r, m, mask)); model_apply(m, ops.back()); ops.push_back(op_solve()); }
  note(m0, ops); m = m0; std::string script;
  Solver A(pb, st), B(pb, st); if (A.flag || B.flag) { if (extreme(st) || illcond(pb, st)) INCONC("extreme penalty"); else VIOL("setup_failed", strf("%d", (int)A.flag)); return; }
  auto bad = [&]() {
    int k = r.irange(0, 2);
    while (k-- > 0) {
      Got g0 = retrieve(B); Snap s0 = snap(B, 0); OSQPSettings t0 = *B.s->settings; VF x0 = work_vec_x(B.s), y0 = work_vec_y(B.s), z0 = work_vec_z(B.s); std::string what;
      I f = rejected_call(r, B, m, what); EV("rejected_calls"); EV(("rejected:" + what.substr(0, 9)).c_str()); script += "[" + what + "] ";
      CHECK(f != 0, "accepted", "%s was accepted", what.c_str()); if (!f) return false;
      std::string d = got_diff(g0, retrieve(B)); CHECK(d.empty(), "result_changed", "%s was rejected but changed the stored result: %s", what.c_str(), d.c_str());
      d = snap_diff(s0, snap(B, 0)); CHECK(d.empty(), "info_changed", "%s was rejected but changed %s", what.c_str(), d.c_str());
      d = settings_diff(t0, *B.s->settings); CHECK(d.empty(), "settings_changed", "%s was rejected but changed setting %s", what.c_str(), d.c_str());
      CHECK(biteq(x0, work_vec_x(B.s)) && biteq(y0, work_vec_y(B.s)) && biteq(z0, work_vec_z(B.s)), "iterate_changed", "%s was rejected but moved the stored iterate", what.c_str());
    }
    return true;
  };
  for (auto& o : ops) {
    if (!bad()) return;
    I fa = op_apply(A, o), fb = op_apply(B, o); EV("api_calls"); if (!fa || o.k == SOLVE) model_apply(m, o);
    if (fa != fb) { VIOL("twin_return", strf("%s returned %d, with rejected calls before it %d [%s]", op_str(o).c_str(), (int)fa, (int)fb, script.c_str())); return; }
    if (o.k == MAT && fa) return;
    std::string d = snap_diff(snap(A, fa), snap(B, fb)); EV("twin_comparisons"); CHECK(d.empty(), "twin_differs", "after %s: %s [%s]", op_str(o).c_str(), d.c_str(), script.c_str());
    if (!d.empty()) return;
  }
  if (!bad()) return;
  std::string d = got_diff(retrieve(A), retrieve(B)); CHECK(d.empty(), "twin_result", "%s [%s]", d.c_str(), script.c_str());
}
// ------------------------------------------------------------------ rho and settings
PROPERTY(P10) {
  Prob pb = any_problem(r); bool direct = r.chance(0.6); OSQPSettings st = hist_settings(r, direct); direct = st.linsys_solver == OSQP_DIRECT_SOLVER; if (r.chance(0.5)) st.scaling = 0;
  Model m0{pb, st}, m = m0; int mask = M_VEC | M_RHO | M_SET;
  if (direct) mask |= M_SOLVE | M_WARM | M_COLD;
  if (st.scaling == 0) mask |= M_MAT;
  Solver A(pb, st); if (A.flag) { if (extreme(st) || illcond(pb, st)) INCONC("extreme penalty"); else VIOL("setup_failed", strf("%d", (int)A.flag)); return; }
  std::vector<Op> ops; int len = r.irange(0, 5);
  for (int t = 0; t < len + 2; t++) {
    int mk = t < len ? mask : t == len ? M_SET : 0; Op o = mk ? gen_op(r, m, mk) : gen_op(r, m, M_RHO);
    ops.push_back(o); OSQPSettings before = *A.s->settings;
    I f = op_apply(A, o); EV("api_calls"); if (f && o.k == MAT) return; if (f && o.k != SOLVE) { if (lost_penalty(A, o)) INCONC("factorisation failed at an extreme penalty"); else VIOL("call_failed", op_str(o)); return; }
    model_apply(m, o);
    OSQPSettings now = *A.s->settings;
    if (o.k == SETT) { std::string d = settings_diff(now, merge_settings(before, o.st)); EV("settings_updates"); CHECK(d.empty(), "settings_merge", "after update_settings, setting is wrong: %s", d.c_str()); }
    if (o.k == RHO) { F e = std::min<F>(std::max<F>(o.rho, (F)OSQP_RHO_MIN), (F)OSQP_RHO_MAX); EV("rho_updates"); CHECK(now.rho == e, "rho_clip", "rho set to %g, settings hold %g", (double)o.rho, (double)now.rho); now.rho = before.rho; std::string d = settings_diff(now, before); CHECK(d.empty(), "rho_touches", "update_rho changed setting %s", d.c_str());
      if (st.rho_is_vec) { VF rv = rho_of(A.s); ScalingView sc = scaling_of(A.s); Prob& p = m.pb;
        for (I i = 0; i < p.m; i++) { L lo = sc.E[i] * p.l[i], hi = sc.E[i] * p.u[i]; L ex = (lo < -INF_THR && hi > INF_THR) ? (L)OSQP_RHO_MIN : hi - lo < (L)OSQP_RHO_TOL * (1 - 1e-6L) ? 1e3L * e : hi - lo > (L)OSQP_RHO_TOL * (1 + 1e-6L) ? (L)e : -1;
          if (ex > 0 && !has(ops, MAT)) CHECK(fabsl(rv[i] - ex) <= 4 * eps_m() * ex, "rho_vec", "penalty of row %d is %g, expected %Lg (l=%g u=%g)", (int)i, (double)rv[i], ex, (double)p.l[i], (double)p.u[i]); } } }
  }
  note(m0, ops);
  op_apply(A, op_cold()); bool iru = !data_after_solve(ops); OSQPSettings as = *A.s->settings; Snap a = solve_snap(A);
  OSQPSettings fs = m.st; fs.adaptive_rho_interval = A.s->settings->adaptive_rho_interval;
  std::unique_ptr<Solver> B;
  if (st.scaling == 0) { B.reset(new Solver(m.pb, fs)); EV("fresh_twins"); } else { B.reset(new Solver(pb, fs)); op_apply(*B, op_vec_touched(ops, m.pb)); EV("path_twins"); }
  if (B->flag) { if (extreme(fs) || illcond(m.pb, fs)) INCONC("extreme penalty"); else VIOL("setup_failed", "fresh"); return; }
  std::string d = settings_diff(as, *B->s->settings); CHECK(d.empty(), "settings_fresh", "updated settings differ from a fresh setup's: %s", d.c_str());
  same("fresh_differs", a, solve_snap(*B), "solver with updated penalty and settings vs fresh setup", true, iru);
}
// ------------------------------------------------------------------ starts
static bool closev(const VF& a, const VL& b, L tol, std::string& d) { L sc = ninf(b); for (size_t i = 0; i < a.size(); i++) if (!(fabsl(a[i] - b[i]) <= tol * (1 + sc))) { d = strf("[%d] %.15g expected %.15Lg", (int)i, (double)a[i], b[i]); return false; } return true; }
PROPERTY(P11) {
  int t = r.irange(0, 3);
  if (t <= 1) {   // iterates follow the model from exactly the given start
    GenOpt o; o.nmax = 7; o.mmax = 9; Prob pb = r.chance(0.7) ? gen_solvable(r, o) : gen_strict(r, o); if (pb.fam.find("scale") != std::string::npos) pb = gen_strict(r, o); OSQPSettings st = default_settings();
    st.sigma = (F)r.logu(1e-2, 1); st.rho = (F)r.logu(0.05, 5); st.scaling = r.pick(VI{0, 0, 1, 10}); st.alpha = (F)r.uni(0.9, 1.8); st.adaptive_rho = 0; st.check_termination = 0; st.rho_is_vec = r.chance(0.8);
    st.eps_abs = (F)1e-12; st.eps_rel = 0; st.eps_prim_inf = st.eps_dual_inf = (F)1e-13; st.max_iter = r.irange(1, 3); st.polishing = 0; st.warm_starting = r.chance(0.7); st.scaled_termination = 1;
    Model m0{pb, st}, m = m0; std::vector<Op> ops; int k = r.irange(1, 4);
    Solver S(pb, st); if (S.flag) { VIOL("setup_failed", ""); return; }
    RefADMM R(pb, st, scaling_of(S.s)); bool warm = st.warm_starting;
    for (int i = 0; i < k; i++) {
      Op o2 = gen_op(r, m, r.chance(0.6) ? M_WARM : r.chance(0.4) ? M_COLD : M_SOLVE); if (o2.k == SOLVE && i == 0) o2 = gen_op(r, m, M_WARM);
      ops.push_back(o2);
      if (o2.k != SOLVE) { op_apply(S, o2); if (o2.k == WARM) { warm = true; R.warm(o2.hx ? &o2.x : nullptr, o2.hy ? &o2.y : nullptr); } else { std::fill(R.x.begin(), R.x.end(), 0); std::fill(R.y.begin(), R.y.end(), 0); std::fill(R.z.begin(), R.z.end(), 0); } }
      if (r.chance(0.3) && o2.k == WARM) { F d = (F)r.uni(0.1, 1); (void)d; Op o3 = gen_op(r, m, M_WARM); ops.push_back(o3); op_apply(S, o3); R.warm(o3.hx ? &o3.x : nullptr, o3.hy ? &o3.y : nullptr); }
      ops.push_back(op_solve()); note(m0, ops);
      if (!warm) { std::fill(R.x.begin(), R.x.end(), 0); std::fill(R.y.begin(), R.y.end(), 0); std::fill(R.z.begin(), R.z.end(), 0); }
      S.solve(); EV("solves"); for (I it = 0; it < st.max_iter; it++) R.step();
      if (!has_sol(S.status())) { EV("other_status"); return; }
      if (S.s->info->iter != st.max_iter) { EV("other_status"); return; }
      std::string d; EV("iterate_comparisons");
      L tol = 1e-8L; VL ex(R.ux()), ey(R.uy()); VF x = S.x(), y = S.y();
      CHECK(closev(x, ex, tol, d), "start_x", "after %d iterations from the given start x%s", (int)st.max_iter, d.c_str());
      CHECK(closev(y, ey, tol, d), "start_y", "after %d iterations from the given start y%s", (int)st.max_iter, d.c_str());
    }
    return;
  }
  Prob pb = t == 2 ? any_problem(r) : r.chance(0.5) ? gen_pinf(r) : gen_dinf(r); OSQPSettings st = hist_settings(r);
  if (t == 2) {   // cold start / warm_starting=0 equals a fresh solver with the same data and penalty
    bool off = r.chance(0.5); if (off) st.warm_starting = 0; Model m0{pb, st}, m = m0;
    std::vector<Op> ops = gen_ops(r, m, M_SOLVE | M_COLD | (off ? 0 : M_WARM) | M_VEC | M_RHO | M_GET, r.irange(1, 6)); ops.insert(ops.begin(), op_solve()); note(m0, ops);
    Solver A(pb, st); if (A.flag || !apply_all(A, ops)) return;
    bool iru = !data_after_solve(ops); OSQPSettings fs = m.st; fs.rho = A.s->settings->rho; fs.adaptive_rho_interval = A.s->settings->adaptive_rho_interval; fs.warm_starting = A.s->settings->warm_starting;
    if (!off) op_apply(A, op_cold());
    Snap a = solve_snap(A); std::unique_ptr<Solver> B;
    if (st.scaling == 0) B.reset(new Solver(m.pb, fs)); else { B.reset(new Solver(pb, fs)); op_apply(*B, op_vec_touched(ops, m.pb)); }
    if (B->flag) { VIOL("setup_failed", ""); return; }
    same(off ? "warm_off_differs" : "cold_differs", a, solve_snap(*B), off ? "solve with warm starting off vs fresh solver" : "solve after cold start vs fresh solver", true, iru); return;
  }
  // infeasible outcome, then a further solve
  st.max_iter = 4000; Model m0{pb, st}, m = m0; std::vector<Op> mid = gen_ops(r, m, M_VEC | M_RHO | M_GET | M_SOLVE, r.irange(0, 3)); note(m0, mid, "after-infeasible");
  Solver A(pb, st), B(pb, st); if (A.flag || B.flag) return;
  A.solve(); B.solve(); if (has_sol(A.status())) { EV("not_infeasible"); return; }
  EV("infeasible_outcomes"); op_apply(B, op_cold());
  for (auto& o : mid) { op_apply(A, o); if (o.k != GETS) op_apply(B, o); }
  VF x0 = work_vec_x(A.s), y0 = work_vec_y(A.s), z0 = work_vec_z(A.s); CHECK(allfinite(x0) && allfinite(y0) && allfinite(z0), "nan_iterate", "iterates are not finite after an infeasible outcome");
  same("after_infeasible", solve_snap(A), solve_snap(B), "solve after an infeasible outcome vs explicit cold start");
}
// ------------------------------------------------------------------ termination schedule and status freshness
static bool verdict(I s) { return s == OSQP_SOLVED || s == OSQP_PRIMAL_INFEASIBLE || s == OSQP_DUAL_INFEASIBLE; }
static bool inaccurate(I s) { return s == OSQP_SOLVED_INACCURATE || s == OSQP_PRIMAL_INFEASIBLE_INACCURATE || s == OSQP_DUAL_INFEASIBLE_INACCURATE; }
PROPERTY(P12) {
  Prob pb = any_problem(r); OSQPSettings st = hist_settings(r, r.chance(0.85)); st.polishing = r.chance(0.2); if (r.chance(0.3)) st.max_iter = r.irange(1, 60);
  if (r.chance(0.3)) st.check_termination = r.irange(1, 40); bool direct = st.linsys_solver == OSQP_DIRECT_SOLVER;
  Model m0{pb, st}, m = m0; std::vector<Op> ops = direct ? gen_ops(r, m, M_SOLVE | M_VEC | M_SET | M_WARM | M_COLD | M_RHO, r.irange(0, 4)) : std::vector<Op>(); ops.push_back(op_solve()); note(m0, ops);
  Solver A(pb, st); if (A.flag) { if (extreme(st) || illcond(pb, st)) INCONC("extreme penalty"); else VIOL("setup_failed", strf("%d", (int)A.flag)); return; } Model t = m0;
  for (auto& o : ops) {
    I f = op_apply(A, o); model_apply(t, o); if (o.k != SOLVE) continue;
    if (f && !polish_lin_err(A, t.st)) { if (A.s->settings->rho > 1e4 || A.s->settings->rho < 1e-4 || t.st.sigma < 1e-5 || illcond(t.pb, t.st, A.s->settings->rho)) INCONC("factorisation failed at an extreme penalty"); else VIOL("call_failed", strf("solve returned %d", (int)f)); return; }
    I s = A.status(), it = A.s->info->iter, c = t.st.check_termination, lim = t.st.max_iter; EV("solves"); EV(strf("status:%d", (int)s).c_str());
    CHECK(it >= 1 && it <= lim, "iter_range", "iter=%d limit %d", (int)it, (int)lim);
    CHECK(it == lim || (c > 0 && it % c == 0), "stop_off_schedule", "stopped at iteration %d with status %d, checking every %d, limit %d", (int)it, (int)s, (int)c, (int)lim);
    CHECK(s != OSQP_UNSOLVED && s != OSQP_SIGINT && s != OSQP_TIME_LIMIT_REACHED, "odd_status", "status %d", (int)s);
    if (inaccurate(s) || s == OSQP_MAX_ITER_REACHED) CHECK(it == lim, "inaccurate_early", "status %d at iteration %d, limit %d", (int)s, (int)it, (int)lim);
    if (it < lim) CHECK(verdict(s) || s == OSQP_NON_CVX, "early_stop", "stopped at %d of %d with status %d", (int)it, (int)lim, (int)s);
    oracle_outcome(t.pb, t.st, A, "status of this solve", O_ALL);
    if (s == OSQP_MAX_ITER_REACHED && ninf(A.x()) < 1e20L && ninf(A.y()) < 1e20L && !t.st.scaled_termination) {   // must really miss the relaxed criteria
      Resid R = residuals(t.pb, A.x(), A.y()); L ea = 10 * (L)t.st.eps_abs, er = 10 * (L)t.st.eps_rel; L pr = A.s->info->prim_res;
      bool p = t.pb.m == 0 || pr < 0.999L * (ea + er * R.nAx), d = R.dual < 0.999L * (ea + er * std::max({R.nq, R.nAty, R.nPx})), g = !t.st.check_dualgap || fabsl(R.gap) < 0.999L * (ea + er * std::max({fabsl(R.xPx), fabsl(R.qx), fabsl(R.SC)})) - 1e-9L * R.eO;
      EV("limit_outcomes"); CHECK(!(p && d && g), "limit_but_met", "maximum iterations reported although the relaxed criteria hold (prim %Lg dual %Lg gap %Lg)", pr, R.dual, R.gap);
    }
  }
  // the verdict comes at the first check at which the criteria hold: prefixes of the same run
  if (!direct || st.polishing) return;
  OSQPSettings fs = st; Solver F0(pb, fs); I f0 = F0.solve(); (void)f0; I it = F0.s->info->iter, s0 = F0.status(), c = st.check_termination;
  if (!verdict(s0) || it < 2) return;
  VI ks; if (c > 0) { for (I k = c; k < it; k += c) ks.push_back(k); } ks.push_back(r.irange(1, (int)it - 1)); ks.push_back(r.irange(1, (int)it - 1));
  while (ks.size() > 8) ks.erase(ks.begin() + r.next() % ks.size());
  for (I k : ks) {
    OSQPSettings s2 = fs; s2.max_iter = k; s2.adaptive_rho_interval = F0.s->settings->adaptive_rho_interval; Solver P(pb, s2); P.solve(); EV("prefix_runs");
    CHECK(P.s->info->iter <= k, "iter_range", "prefix iter %d > %d", (int)P.s->info->iter, (int)k);
    if (c > 0 && k % c == 0) { CHECK(!verdict(P.status()), "late_stop", "criteria of status %d already held at iteration %d (checked every %d), but the run went on to %d", (int)P.status(), (int)k, (int)c, (int)it); }
    else if (c > 0 || true) {   // limit off schedule: one final check decides
      CHECK(P.s->info->iter == k, "prefix_iter", "limit %d but stopped at %d", (int)k, (int)P.s->info->iter); }
  }
}
// ------------------------------------------------------------------ ownership
template <class T> struct Scratch { T* p; std::vector<T> o; const char* nm; Scratch(const std::vector<T>& v, const char* nm) : o(v), nm(nm) { p = (T*)malloc(v.size() * sizeof(T) + 1); if (v.size()) memcpy(p, v.data(), v.size() * sizeof(T)); }
  void destroy() { EV("argument_byte_checks"); if (o.size() && memcmp(p, o.data(), o.size() * sizeof(T))) VIOL("argument_modified", strf("setup modified %s", nm)); memset((void*)p, 0x7f, o.size() * sizeof(T)); free((void*)p); } };
static void guarded_setup(Solver& S, const Prob& pb, const OSQPSettings& st) {
  S.n = pb.n; S.m = pb.m; Scratch<I> Pp(pb.P.p, "P->p"), Pi(pb.P.i, "P->i"), Ap(pb.A.p, "A->p"), Ai(pb.A.i, "A->i"); Scratch<F> Px(pb.P.x, "P->x"), Ax(pb.A.x, "A->x"), q(pb.q, "q"), l(pb.l, "l"), u(pb.u, "u");
  Scratch<OSQPSettings> s(std::vector<OSQPSettings>(1, st), "settings");
  OSQPCscMatrix P = {pb.n, pb.n, Pp.p, Pi.p, Px.p, pb.P.nnz(), -1, 0}, A = {pb.m, pb.n, Ap.p, Ai.p, Ax.p, pb.A.nnz(), -1, 0};
  Scratch<OSQPCscMatrix> PM(std::vector<OSQPCscMatrix>(1, P), "P"), AM(std::vector<OSQPCscMatrix>(1, A), "A");
  S.flag = osqp_setup(&S.s, PM.p, q.p, AM.p, l.p, u.p, pb.m, pb.n, s.p);
  Pp.destroy(); Pi.destroy(); Ap.destroy(); Ai.destroy(); Px.destroy(); Ax.destroy(); q.destroy(); l.destroy(); u.destroy(); s.destroy(); PM.destroy(); AM.destroy();
}
PROPERTY(P14) {
  Prob pb = any_problem(r); OSQPSettings st = hist_settings(r, r.chance(0.7));
  Model m0{pb, st}, m = m0; int mask = M_SOLVE | M_VEC | M_MAT | M_RHO | M_SET | M_WARM | M_COLD | M_GET; if (st.linsys_solver != OSQP_DIRECT_SOLVER) mask &= ~M_SET;
  std::vector<Op> ops = gen_ops(r, m, mask, r.irange(1, 8)); ops.push_back(op_solve()); note(m0, ops);
  // missing bounds may be given as anything at or beyond the library's infinity
  auto far = [&](VF& l, VF& u) { for (auto& e : l) if (e <= -INF && r.chance(0.6)) { e = r.chance(0.5) ? (F)-HUGE_VAL : (F)-2e30; EV("bounds_beyond_infinity"); } for (auto& e : u) if (e >= INF && r.chance(0.6)) { e = r.chance(0.5) ? (F)HUGE_VAL : (F)3e31; EV("bounds_beyond_infinity"); } };
  if (r.chance(0.5)) { far(pb.l, pb.u); for (auto& o : ops) if (o.k == VEC) far(o.l, o.u); }
  Prob pa = pb; Solver A(pa, st), B; guarded_setup(B, pb, st);
  if (A.flag != B.flag) { VIOL("setup_twin", strf("setup returned %d, with private arguments %d", (int)A.flag, (int)B.flag)); return; } if (A.flag) return;
  for (auto& o : ops) {
    I fa = op_apply(A, o), fb = op_apply(B, o, true); EV("api_calls");
    std::string d = snap_diff(snap(A, fa), snap(B, fb)); EV("twin_comparisons"); CHECK(d.empty(), "retained_argument", "after %s with arguments destroyed: %s", op_str(o).c_str(), d.c_str());
    if (!d.empty() || (fa && o.k == MAT)) return;
  }
}
// ------------------------------------------------------------------ determinism and independence
PROPERTY(P15) {
  Prob pb = any_problem(r); OSQPSettings st = hist_settings(r, r.chance(0.6)); bool amp = r.chance(0.25);
  if (amp) {   // constraints far larger than the costs, not equilibrated: factorizations that have to perturb pivots
    F a = (F)r.logu(10, sizeof(F) == 4 ? 1e3 : 1e7); for (auto& e : pb.A.x) e *= a; for (auto& e : pb.l) if (e > -INF) e *= a; for (auto& e : pb.u) if (e < INF) e *= a; st.scaling = 0; pb.fam += "-amp"; pb.hasopt = false; EV("amplified"); }
  Model m0{pb, st}, m = m0; int mask = M_SOLVE | M_VEC | M_MAT | M_RHO | M_SET | M_WARM | M_COLD | M_GET; if (st.linsys_solver != OSQP_DIRECT_SOLVER) mask &= ~M_SET;
  std::vector<Op> ops = gen_ops(r, m, mask, r.irange(1, 6)); ops.push_back(op_solve()); note(m0, ops);
  std::vector<Snap> ref; bool stop = false; bool fill = r.chance(0.7); int fa = r.irange(1, 255), fb = r.irange(1, 255);   // fresh memory of the two runs holds different bytes
  if (fill) { mallopt(M_PERTURB, fa); EV("filled_heaps"); } struct Fin { ~Fin() { mallopt(M_PERTURB, 0); } } fin;
  { Solver A(pb, st); if (A.flag) { if (amp || extreme(st)) INCONC("extreme penalty"); else VIOL("setup_failed", strf("%d", (int)A.flag)); return; } for (auto& o : ops) { I f = op_apply(A, o); ref.push_back(snap(A, f)); if (f && o.k == MAT) { stop = true; break; } } }
  if (stop) ops.resize(ref.size());
  // the same again, among other solvers and with a dirtied heap
  std::vector<std::unique_ptr<Solver>> others; std::vector<Model> om; std::vector<std::pair<void*, size_t>> junk;
  auto noise = [&]() {
    int k = r.irange(0, 3);
    while (k-- > 0) { int t = r.irange(0, 4);
      if (t == 0 || others.empty()) { Model x{r.chance(0.3) ? pb : any_problem(r), hist_settings(r, r.chance(0.6))}; others.emplace_back(new Solver(x.pb, x.st)); om.push_back(x); EV("other_setups"); }
      else if (t == 1) { size_t i = r.next() % others.size(); others.erase(others.begin() + i); om.erase(om.begin() + i); EV("other_cleanups"); }
      else if (t == 2) { for (int z = 0; z < 20; z++) { size_t n = (size_t)r.irange(1, 4000); void* p = malloc(n); memset(p, (int)(r.next() & 255), n); junk.push_back({p, n}); } while (junk.size() > 60) { size_t i = r.next() % junk.size(); free(junk[i].first); junk.erase(junk.begin() + i); } }
      else { size_t i = r.next() % others.size(); if (others[i]->flag) continue; Op o = gen_op(r, om[i], M_SOLVE | M_VEC | M_RHO | M_WARM); op_apply(*others[i], o); model_apply(om[i], o); EV("other_calls"); } }
  };
  if (fill) mallopt(M_PERTURB, fb); noise(); Solver B(pb, st); if (B.flag) { VIOL("setup_differs", "second setup of the same problem failed"); return; }
  for (size_t i = 0; i < ops.size(); i++) {
    noise(); I f = op_apply(B, ops[i]); EV("api_calls"); std::string d = snap_diff(ref[i], snap(B, f)); EV("twin_comparisons");
    CHECK(d.empty(), "not_deterministic", "second run of the same calls differs after %s (step %d): %s", op_str(ops[i]).c_str(), (int)i, d.c_str()); if (!d.empty()) break;
  }
  for (auto& j : junk) free(j.first);
}
// ------------------------------------------------------------------ retrieval
PROPERTY(P34) {
  Prob pb = any_problem(r); if (r.chance(0.25)) pb = r.chance(0.5) ? gen_pinf(r) : gen_dinf(r); OSQPSettings st = hist_settings(r, r.chance(0.75)); if (r.chance(0.4)) st.max_iter = 4000;
  Model m0{pb, st}, m = m0; int mask = M_SOLVE | M_VEC | M_RHO | M_WARM | M_COLD; std::vector<Op> ops{op_solve()};
  for (auto& o : gen_ops(r, m, mask, r.irange(0, 4))) ops.push_back(o); ops.push_back(op_solve()); note(m0, ops);
  OSQPSettings s2 = st; s2.allocate_solution = 0;
  Solver A(pb, st), B(pb, s2), C(pb, st); if (A.flag || B.flag || C.flag) { if (extreme(st) || illcond(pb, st)) INCONC("extreme penalty"); else VIOL("setup_failed", strf("%d", (int)A.flag)); return; }
  CHECK(B.s->solution == nullptr, "solution_allocated", "solver allocated a solution although told not to");
  for (auto& o : ops) {
    I fa = op_apply(A, o), fb = op_apply(B, o), fc = op_apply(C, o); EV("api_calls");
    if (fa != fb || fa != fc) { VIOL("twin_return", op_str(o)); return; }
    if (o.k != SOLVE) continue;
    EV("solves"); EV(strf("status:%d", (int)A.status()).c_str());
    Got own; own.x = A.x(); own.y = A.y(); own.pc = A.pc(); own.dc = A.dc();
    int k = r.irange(1, 3);
    while (k-- > 0) { Got g = retrieve(A); EV("retrievals"); CHECK(g.flag == 0, "get_failed", "%d", (int)g.flag); std::string d = got_diff(g, own); CHECK(d.empty(), "retrieved_differs", "retrieved %s differs from the solver's own solution (status %d)", d.c_str(), (int)A.status()); }
    Got b = retrieve(B); std::string d = got_diff(b, own); CHECK(d.empty(), "no_storage_differs", "%s differs without solver-owned storage", d.c_str());
    if (r.chance(0.5)) { b = retrieve(B); d = got_diff(b, own); CHECK(d.empty(), "no_storage_differs", "%s differs on repeated retrieval", d.c_str()); }
    // C never retrieves: later solves must not notice
    d = snap_diff(snap(A, fa), snap(C, fc)); EV("twin_comparisons"); CHECK(d.empty(), "retrieval_disturbs", "%s", d.c_str());
    Snap sb = snap(B, fb), sa = snap(A, fa); sb.x = sa.x; sb.y = sa.y; sb.pc = sa.pc; sb.dc = sa.dc; d = snap_diff(sa, sb); CHECK(d.empty(), "no_storage_info", "%s", d.c_str());
  }
}
