// Argument validation (P20), helper calls (P21), sparse matrix helpers (P22).
#include "history.h"
#include "version.h"
extern "C" {
#include "csc_utils.h"
}
#if defined(VF_TRACK)
static long live0 = 0, bad0 = 0;
static void mem_begin() { vf_mem_forget(); live0 = vf_mem_live(); bad0 = vf_mem_badfree(); }
static long mem_left() { return vf_mem_live() - live0; }
static void mem_end(const char* where) { EV("leak_checks");
  CHECK(vf_mem_badfree() == bad0, "bad_free", "%s: a block was freed that the library does not own", where);
  CHECK(vf_mem_live() == live0, "leak", "%s: %ld blocks were not released: %s", where, mem_left(), vf_mem_describe_live()); vf_mem_forget(); }
#else
static void mem_begin() {} static long mem_left() { return 0; } static void mem_end(const char*) {}
#endif
static F up(F v) { return std::nextafter(v, (F)1e30); } static F dn(F v) { return std::nextafter(v, (F)-1e30); }
static const F TINY = std::numeric_limits<F>::denorm_min();
// ------------------------------------------------------------------ settings: documented limits
struct Fld { const char* nm; bool updatable; std::function<void(OSQPSettings&, double)> set; std::function<double(const OSQPSettings&)> get; std::vector<double> bad, good, edge; };   // edge: valid, but too extreme to demand more than acceptance
#define FF(f, upd, ...) Fld{#f, upd, [](OSQPSettings& s, double v) { s.f = (decltype(s.f))v; }, [](const OSQPSettings& s) { return (double)s.f; }, __VA_ARGS__}
static const double BIGF = 1e30; typedef std::vector<double> VD;
static std::vector<Fld> fields() {
  I caps = osqp_capabilities(); VD linbad{0, -1, 3, 99}, lingood; if (caps & OSQP_CAPABILITY_DIRECT_SOLVER) lingood.push_back(OSQP_DIRECT_SOLVER); else linbad.push_back(OSQP_DIRECT_SOLVER); if (caps & OSQP_CAPABILITY_INDIRECT_SOLVER) lingood.push_back(OSQP_INDIRECT_SOLVER); else linbad.push_back(OSQP_INDIRECT_SOLVER);
  VD nb{-1, 2, 77, -1000000}, gb{0, 1};
  VD adbad{4, 5, 1000, -1}, adgood{0, 1, 3};
#ifdef OSQP_ENABLE_PROFILING
  adgood.push_back(2);
#else
  adbad.push_back(2);
#endif
  return {
    FF(linsys_solver, false, linbad, lingood, {}), FF(allocate_solution, false, nb, gb, {}), FF(verbose, true, nb, VD{0}, {}), FF(profiler_level, true, VD{-1, 3, 50}, VD{0, 1, 2}, {}), FF(warm_starting, true, nb, gb, {}),
    FF(scaling, false, VD{-1, -2, -100000}, VD{0, 1, 2, 10, 30}, {}), FF(polishing, true, nb, gb, {}), FF(rho, false, VD{0, -TINY, -0.1, -BIGF}, VD{0.1, 1e-6, 1e6}, VD{TINY, BIGF}), FF(rho_is_vec, false, nb, gb, {}),
    FF(sigma, false, VD{0, -TINY, -1e-6, -BIGF}, VD{1e-6, 1e-3, 1}, VD{TINY}), FF(alpha, true, VD{0, -TINY, -1, 2, up(2), 3, BIGF}, VD{1.6, 1, 0.5, 1.9}, VD{TINY, dn(2)}),
    FF(cg_max_iter, true, VD{0, -1, -100}, VD{1, 20, 100}, {}), FF(cg_tol_reduction, true, VD{0, -1, -7}, VD{1, 10, 100}, {}), FF(cg_tol_fraction, true, VD{0, -TINY, -0.5, 1, up(1), 2}, VD{0.15, 0.5}, VD{TINY, dn(1)}), FF(cg_precond, true, VD{2, -1, 17}, gb, {}),
    FF(adaptive_rho, false, adbad, adgood, {}), FF(adaptive_rho_interval, false, VD{-1, -50}, VD{0, 1, 50, 100000}, {}), FF(adaptive_rho_fraction, false, VD{0, -TINY, -0.4}, VD{0.4, 1, 3}, VD{TINY, BIGF}), FF(adaptive_rho_tolerance, false, VD{dn(1), 0.5, 0, -5}, VD{1, up(1), 5}, VD{BIGF}),
    FF(max_iter, true, VD{0, -1, -4000}, VD{1, 2, 4000}, {}), FF(eps_abs, true, VD{-TINY, -1e-3, -BIGF}, VD{1e-3, 1e-5}, VD{TINY, BIGF}), FF(eps_rel, true, VD{-TINY, -1e-3, -BIGF}, VD{0, 1e-3, 1e-5}, VD{TINY, BIGF}),
    FF(eps_prim_inf, true, VD{-TINY, -1e-4}, VD{1e-4, 1e-8}, VD{TINY, BIGF}), FF(eps_dual_inf, true, VD{-TINY, -1e-4}, VD{1e-4, 1e-8}, VD{TINY, BIGF}), FF(scaled_termination, true, nb, gb, {}), FF(check_termination, true, VD{-1, -25}, VD{0, 1, 25}, {}), FF(check_dualgap, true, nb, gb, {}),
    FF(time_limit, true, VD{0, -TINY, -1}, VD{1e10, 1e5}, VD{TINY}), FF(delta, true, VD{0, -TINY, -1e-6}, VD{1e-6, 1e-3}, VD{TINY}), FF(polish_refine_iter, true, VD{-1, -3}, VD{0, 1, 3, 20}, {}) };
}
static OSQPSolver* const SENT = (OSQPSolver*)(uintptr_t)0x5a5a5a50;
static Prob vprob(Rng& r) { GenOpt o; o.nmax = 5; o.mmax = 6; o.mmin = r.chance(0.8) ? 1 : 0; return gen_strict(r, o); }
static I raw_setup(OSQPSolver** s, Prob& pb, const OSQPSettings* st) { CscView P(pb.P), A(pb.A); F d; return osqp_setup(s, &P.M, pb.q.data(), &A.M, pb.m ? pb.l.data() : &d, pb.m ? pb.u.data() : &d, pb.m, pb.n, st); }
static void refused(const char* what, I got, I want, I want2, OSQPSolver* h, const char* detail) {
  EV("refusals"); CHECK(got == want || got == want2, "wrong_code", "%s returned %d, expected %d: %s", what, (int)got, (int)want, detail);
  CHECK(h == SENT, "handle_touched", "%s refused its arguments but wrote the solver handle: %s", what, detail);
  if (h != SENT && h) osqp_cleanup(h);
}
static void val_settings(Rng& r, bool upd) {
  static std::vector<Fld> T = fields(); Prob pb = vprob(r); OSQPSettings st = default_settings(); std::string d; bool extreme = false, both_eps0 = false;
  for (auto& f : T) if (r.chance(0.25)) { double v = r.pick(f.good); f.set(st, v); }
  if (r.chance(0.3)) { auto& f = r.pick(T); if (!f.edge.empty()) { double v = r.pick(f.edge); f.set(st, v); d += strf("%s=%g(edge) ", f.nm, v); extreme = true; } }
  if (st.eps_abs == 0 && st.eps_rel == 0) st.eps_abs = (F)1e-3;
  OSQPSettings good = st; int nbad = r.chance(0.25) ? 0 : r.chance(0.75) ? 1 : r.irange(2, 4); bool counted = false;
  for (int k = 0; k < nbad; k++) { auto& f = r.pick(T); if (upd && !f.updatable && !(!strcmp(f.nm, "adaptive_rho"))) continue; double v = r.pick(f.bad); if (upd && !strcmp(f.nm, "adaptive_rho") && v < 4) continue; f.set(st, v); counted = true; d += strf("%s=%.17g ", f.nm, v); }
  if (!counted && r.chance(0.1)) { st.eps_abs = st.eps_rel = 0; both_eps0 = true; counted = true; d += "eps_abs=eps_rel=0 "; }
  // a later spoiled field may have been repaired by chance of the same field drawn twice: both draws are bad, so it stays bad
  (void)both_eps0; G.note = prob_str(pb) + " | " + (upd ? "update_settings " : "setup ") + d + "| " + settings_str(st); SIG(strf("%d %s", upd, d.c_str())); if (!counted) SIG(settings_str(st));
  mem_begin();
  if (!upd) {
    OSQPSolver* h = SENT; I f = raw_setup(&h, pb, &st); EV("setup_calls");
    if (counted) { refused("osqp_setup", f, OSQP_SETTINGS_VALIDATION_ERROR, OSQP_SETTINGS_VALIDATION_ERROR, h, d.c_str()); CHECK(mem_left() == 0, "refused_setup_allocated", "%ld blocks are live after a refused setup", mem_left()); }
    else { EV("accepted_sets"); CHECK(f != OSQP_SETTINGS_VALIDATION_ERROR && f != OSQP_DATA_VALIDATION_ERROR, "valid_refused", "osqp_setup returned %d for settings within the documented limits: %s", (int)f, d.c_str());
      if (!extreme) { CHECK(f == 0, "valid_failed", "osqp_setup returned %d", (int)f); if (!f) { I g = osqp_solve(h); CHECK(g == 0 || h->info->status_polish == OSQP_POLISH_LINSYS_ERROR, "solve_failed", "osqp_solve returned %d", (int)g); EV("solves"); } }
      if (h != SENT && h) osqp_cleanup(h); }
  } else {
    OSQPSettings base = default_settings(); OSQPSolver* h = SENT; I f0 = raw_setup(&h, pb, &base); if (f0) { VIOL("valid_failed", "setup with default settings failed"); return; }
    OSQPSettings was = *h->settings; I f = osqp_update_settings(h, &st); EV("update_calls");
    if (counted) { EV("refusals"); CHECK(f == OSQP_SETTINGS_VALIDATION_ERROR, "wrong_code", "osqp_update_settings returned %d: %s", (int)f, d.c_str()); std::string x = settings_diff(was, *h->settings); CHECK(x.empty(), "refused_update_applied", "a refused settings update changed %s (%s)", x.c_str(), d.c_str()); }
    else { EV("accepted_sets"); CHECK(f == 0, "valid_refused", "osqp_update_settings returned %d for settings within the documented limits: %s", (int)f, d.c_str());
      OSQPSettings want = merge_settings(was, st); std::string x = settings_diff(want, *h->settings); CHECK(f || x.empty(), "update_not_applied", "after the settings update: %s", x.c_str()); if (!extreme && !f) { I g = osqp_solve(h); CHECK(g == 0 || h->info->status_polish == OSQP_POLISH_LINSYS_ERROR, "solve_failed", "osqp_solve returned %d", (int)g); EV("solves"); } }
    osqp_cleanup(h); (void)good;
  }
  mem_end("after the settings check");
}
static void val_rho(Rng& r) {
  Prob pb = vprob(r); OSQPSettings st = rand_settings(r); OSQPSolver* h = SENT; mem_begin(); if (raw_setup(&h, pb, &st)) { if (h != SENT) osqp_cleanup(h); EV("setup_failed"); return; }
  for (int k = 0; k < 6; k++) { bool bad = r.chance(0.5); F was = h->settings->rho; VF rv = rho_of(h); F v = bad ? (F)r.pick(VD{0, -TINY, -1, -BIGF, -0.0}) : (F)r.pick(VD{1e-6, 0.1, 1, 1e6, 1e9, TINY, 1e-20}); I f = osqp_update_rho(h, v); EV("update_calls"); SIG(strf("rho %g %d", (double)v, (int)st.linsys_solver));
    if (bad) { EV("refusals"); CHECK(f != 0, "wrong_code", "osqp_update_rho(%g) returned %d", (double)v, (int)f); CHECK(h->settings->rho == was && biteq(rv, rho_of(h)), "refused_update_applied", "a refused penalty update changed the penalty"); }
    else { CHECK(f == 0, "valid_refused", "osqp_update_rho(%g) returned %d", (double)v, (int)f); F w = h->settings->rho; F e = std::min<F>(std::max<F>(v, (F)OSQP_RHO_MIN), (F)OSQP_RHO_MAX); CHECK(w == e, "rho_not_applied", "osqp_update_rho(%g): penalty is %g", (double)v, (double)w); } }
  osqp_cleanup(h); mem_end("after the penalty updates");
}
static void val_data(Rng& r) {
  GenOpt o; o.nmax = 6; o.mmax = 7; Prob pb = r.chance(0.5) ? gen_strict(r, o) : gen_solvable(r, o); OSQPSettings st = default_settings(); bool bads = r.chance(0.08); if (bads) st.alpha = 2;
  CscView vP(pb.P), vA(pb.A); OSQPCscMatrix *P = &vP.M, *A = &vA.M; F d; const F *q = pb.q.data(), *l = pb.m ? pb.l.data() : &d, *u = pb.m ? pb.u.data() : &d; I n = pb.n, m = pb.m; const OSQPSettings* sp = &st; std::string what; bool bad = true, sbad = bads;
  Csc P2; std::unique_ptr<CscView> v2; int k = r.irange(0, 17);
  switch (k) {
    case 0: P = nullptr; what = "P null"; break;
    case 1: A = nullptr; what = "A null"; break;
    case 2: q = nullptr; what = "q null"; break;
    case 3: if (m) { if (r.chance(0.5)) l = nullptr; if (l == nullptr ? r.chance(0.3) : true) u = nullptr; what = "bounds null"; } else { l = u = nullptr; bad = false; what = "bounds null without constraints"; } break;
    case 4: n = r.pick(VI{0, -1, -5, -1000000}); if (r.chance(0.5)) { vP.M.m = vP.M.n = n; vA.M.n = n; } what = strf("n=%d", (int)n); break;
    case 5: m = r.pick(VI{-1, -3, -1000000}); if (r.chance(0.5)) vA.M.m = m; what = strf("m=%d", (int)m); break;
    case 6: vP.M.m += r.pick(VI{1, -1, 5}); what = "P rows"; break;
    case 7: vP.M.n += r.pick(VI{1, -1, 5}); what = "P columns"; break;
    case 8: vA.M.m += r.pick(VI{1, -1, 5}); what = "A rows"; break;
    case 9: vA.M.n += r.pick(VI{1, -1, 5}); what = "A columns"; break;
    case 10: case 11: { // one entry below the diagonal, anywhere
      if (n < 2) { bad = false; what = "1x1"; break; } I j = r.irange(0, (int)n - 2), i = r.irange((int)j + 1, (int)n - 1); Dense D(n, std::vector<double>(n, 0)); std::vector<std::vector<char>> kp(n, std::vector<char>(n, 0)); Csc c; c.m = c.n = n; c.p.assign(n + 1, 0);
      for (I b = 0; b < n; b++) { VI rows; for (I t = pb.P.p[b]; t < pb.P.p[b + 1]; t++) rows.push_back(pb.P.i[t]); std::vector<F> vals; for (I t = pb.P.p[b]; t < pb.P.p[b + 1]; t++) vals.push_back(pb.P.x[t]);
        if (b == j) { size_t pos = r.chance(0.5) ? rows.size() : r.next() % (rows.size() + 1); rows.insert(rows.begin() + pos, i); vals.insert(vals.begin() + pos, (F)(r.chance(0.3) ? 0.0 : 0.5)); }
        for (size_t t = 0; t < rows.size(); t++) { c.i.push_back(rows[t]); c.x.push_back(vals[t]); } c.p[b + 1] = (I)c.i.size(); }
      P2 = c; v2.reset(new CscView(P2)); P = &v2->M; what = strf("P(%d,%d) below the diagonal", (int)i, (int)j); break; }
    case 12: case 13: { if (!m) { bad = false; what = "no constraints"; break; } I i = r.chance(0.3) ? 0 : r.chance(0.4) ? m - 1 : r.irange(0, (int)m - 1); int t = r.irange(0, 3);
      if (t == 0) { F c = (F)r.gauss(); pb.u[i] = c; pb.l[i] = up(c); } else if (t == 1) { pb.l[i] = INF; pb.u[i] = -INF; } else if (t == 2) { pb.l[i] = INF; pb.u[i] = 5; } else { pb.u[i] = -INF; pb.l[i] = -3; } what = strf("l[%d]>u[%d]: %.17g>%.17g", (int)i, (int)i, (double)pb.l[i], (double)pb.u[i]); break; }
    case 14: sp = nullptr; sbad = true; bad = false; what = "settings null"; break;
    case 15: { bad = false; for (I i = 0; i < m; i++) if (r.chance(0.5)) { F c = (F)r.gauss(); pb.l[i] = c; pb.u[i] = r.chance(0.5) ? c : up(c); } else { pb.l[i] = -INF; pb.u[i] = INF; } what = "touching bounds"; break; }
    case 16: { bad = false; P2.m = P2.n = n; P2.p.assign(n + 1, 0); v2.reset(new CscView(P2)); P = &v2->M; if (r.chance(0.5)) { P->x = nullptr; P->i = nullptr; } what = "P without entries"; break; }
    default: bad = false; what = "unchanged"; break;
  }
  G.note = prob_str(pb) + " | " + what + (bads ? " and alpha=2" : ""); SIG(strf("%d %d %s", (int)pb.n, (int)pb.m, what.c_str())); mem_begin();
  OSQPSolver* h = SENT; I f = osqp_setup(&h, P, q, A, l, u, m, n, sp); EV("setup_calls");
  if (bad || sbad) { I w = bad ? OSQP_DATA_VALIDATION_ERROR : OSQP_SETTINGS_VALIDATION_ERROR, w2 = bad && sbad ? OSQP_SETTINGS_VALIDATION_ERROR : w; refused("osqp_setup", f, w, w2, h, what.c_str()); CHECK(mem_left() == 0, "refused_setup_allocated", "%ld blocks are live after a refused setup (%s)", mem_left(), what.c_str()); EV(("data:" + what.substr(0, 6)).c_str()); }
  else { EV("accepted_sets"); CHECK(f == 0, "valid_refused", "osqp_setup returned %d: %s", (int)f, what.c_str()); if (!f) { I g = osqp_solve(h); CHECK(g == 0, "solve_failed", "osqp_solve returned %d (%s)", (int)g, what.c_str()); EV("solves"); } if (h != SENT && h) osqp_cleanup(h); }
  mem_end("after the data check");
}
PROPERTY(P20) { int t = r.irange(0, 9); if (t < 3) val_settings(r, false); else if (t < 6) val_settings(r, true); else if (t < 9) val_data(r); else val_rho(r); }

// ------------------------------------------------------------------ helper calls
static std::string defaults_str() {
  OSQPSettings s; memset((void*)&s, 0xA5, sizeof s); osqp_set_default_settings(&s); std::string e;
  auto eq = [&](const char* nm, double a, double b) { if (a != b) e += strf("%s=%g expected %g; ", nm, a, b); };
  eq("device", s.device, 0); eq("allocate_solution", s.allocate_solution, 1); eq("verbose", s.verbose, 1); eq("profiler_level", s.profiler_level, 0); eq("warm_starting", s.warm_starting, 1); eq("scaling", s.scaling, 10); eq("polishing", s.polishing, 0);
  eq("rho", s.rho, (F)0.1); eq("rho_is_vec", s.rho_is_vec, 1); eq("sigma", s.sigma, (F)1e-6); eq("alpha", s.alpha, (F)1.6); eq("cg_max_iter", s.cg_max_iter, 20); eq("cg_tol_reduction", s.cg_tol_reduction, 10); eq("cg_tol_fraction", s.cg_tol_fraction, (F)0.15); eq("cg_precond", s.cg_precond, OSQP_DIAGONAL_PRECONDITIONER);
  eq("adaptive_rho", s.adaptive_rho, 1); eq("adaptive_rho_interval", s.adaptive_rho_interval, 50); eq("adaptive_rho_fraction", s.adaptive_rho_fraction, (F)0.4); eq("adaptive_rho_tolerance", s.adaptive_rho_tolerance, 5);
  eq("max_iter", s.max_iter, 4000); eq("eps_abs", s.eps_abs, (F)1e-3); eq("eps_rel", s.eps_rel, (F)1e-3); eq("eps_prim_inf", s.eps_prim_inf, (F)1e-4); eq("eps_dual_inf", s.eps_dual_inf, (F)1e-4); eq("scaled_termination", s.scaled_termination, 0); eq("check_termination", s.check_termination, 25); eq("check_dualgap", s.check_dualgap, sizeof(F) == 8); eq("time_limit", s.time_limit, (F)1e10);
  eq("delta", s.delta, (F)1e-6); eq("polish_refine_iter", s.polish_refine_iter, 3);
  I caps = osqp_capabilities(); if (!(s.linsys_solver == OSQP_DIRECT_SOLVER && caps & OSQP_CAPABILITY_DIRECT_SOLVER) && !(s.linsys_solver == OSQP_INDIRECT_SOLVER && caps & OSQP_CAPABILITY_INDIRECT_SOLVER)) e += strf("default linear solver %d is not available; ", (int)s.linsys_solver);
  OSQPSettings* p = OSQPSettings_new(); if (!p) e += "OSQPSettings_new failed; "; else { std::string d = settings_diff(s, *p); if (!d.empty()) e += "OSQPSettings_new: " + d; OSQPSettings_free(p); }
  OSQPCodegenDefines c; memset((void*)&c, 0xA5, sizeof c); osqp_set_default_codegen_defines(&c); if (c.embedded_mode != 1 || c.float_type || c.printing_enable || c.profiling_enable || c.interrupt_enable || c.derivatives_enable) e += "code generation defaults; ";
  OSQPCodegenDefines* g = OSQPCodegenDefines_new(); if (!g) e += "OSQPCodegenDefines_new failed; "; else { if (g->embedded_mode != 1 || g->float_type || g->printing_enable || g->profiling_enable || g->interrupt_enable || g->derivatives_enable) e += "OSQPCodegenDefines_new; "; OSQPCodegenDefines_free(g); }
  return e;
}
static void messages(Rng& r) {
  std::set<std::string> seen; std::string last; for (I e = 1; e < OSQP_LAST_ERROR_PLACE; e++) { const char* t = osqp_error_message(e); CHECK(t && *t, "empty_message", "error code %d has no message", (int)e); if (t) { CHECK(seen.insert(t).second, "message_repeated", "error code %d shares its message '%s'", (int)e, t); } }
  const char* un = osqp_error_message(OSQP_LAST_ERROR_PLACE); CHECK(un && !seen.count(un), "unknown_message", "code %d is not reported as unknown: %s", (int)OSQP_LAST_ERROR_PLACE, un ? un : "(null)");
  static const std::map<I, const char*> words = {{OSQP_DATA_VALIDATION_ERROR, "data"}, {OSQP_SETTINGS_VALIDATION_ERROR, "ettings"}, {OSQP_LINSYS_SOLVER_INIT_ERROR, "Linear system"}, {OSQP_NONCVX_ERROR, "non-convex"}, {OSQP_MEM_ALLOC_ERROR, "Memory"}, {OSQP_WORKSPACE_NOT_INIT_ERROR, "orkspace"}, {OSQP_ALGEBRA_LOAD_ERROR, "lgebra"}, {OSQP_FOPEN_ERROR, "file"}, {OSQP_CODEGEN_DEFINES_ERROR, "codegen"}, {OSQP_DATA_NOT_INITIALIZED, "not initialized"}, {OSQP_FUNC_NOT_IMPLEMENTED, "not implemented"}};
  for (auto& w : words) { const char* t = osqp_error_message(w.first); CHECK(t && strstr(t, w.second), "wrong_message", "error code %d is described as '%s'", (int)w.first, t ? t : "(null)"); }
  std::vector<long long> odd{0, -1, -2, 12, 13, 14, 100, 1000000, -1000000, (long long)std::numeric_limits<I>::max(), (long long)std::numeric_limits<I>::min(), (long long)r.next() >> 1, -(long long)(r.next() >> 1)};
  for (long long e : odd) { if (e >= 1 && e < OSQP_LAST_ERROR_PLACE) continue; I c = (I)e; if (c >= 1 && c < OSQP_LAST_ERROR_PLACE) continue; const char* t = osqp_error_message(c); CHECK(t && un && !strcmp(t, un), "unknown_message", "unknown code %lld is described as '%s'", e, t ? t : "(null)"); }
  EV("message_checks");
}
// every entry point on a solver that is not ready; dims: the true sizes, when a failed setup may know them
static void not_ready(Rng& r, OSQPSolver* s, const char* kind, I m, I n, bool dims, bool noncvx = false) {
  VF v(16, (F)1); VI idx(16, 0); OSQPSettings st = default_settings(); Csc e; e.m = e.n = 1; e.p = {0, 0}; CscView dP(e), dA(e); OSQPSolution sol; sol.x = v.data(); sol.y = v.data(); sol.prim_inf_cert = v.data(); sol.dual_inf_cert = v.data(); VF v0 = v; OSQPCodegenDefines cd; osqp_set_default_codegen_defines(&cd);
  struct C { const char* nm; std::function<I()> f; }; const I W = OSQP_WORKSPACE_NOT_INIT_ERROR;
  std::vector<C> calls = {{"osqp_solve", [&] { return osqp_solve(s); }}, {"osqp_get_solution", [&] { return osqp_get_solution(s, &sol); }}, {"osqp_warm_start", [&] { return osqp_warm_start(s, v.data(), v.data()); }}, {"osqp_warm_start(null)", [&] { return osqp_warm_start(s, nullptr, nullptr); }}, {"osqp_update_data_vec", [&] { return osqp_update_data_vec(s, v.data(), v.data(), v.data()); }}, {"osqp_update_data_vec(null)", [&] { return osqp_update_data_vec(s, nullptr, nullptr, nullptr); }},
    {"osqp_update_data_mat", [&] { return osqp_update_data_mat(s, v.data(), idx.data(), 1, v.data(), idx.data(), 1); }}, {"osqp_update_data_mat(null)", [&] { return osqp_update_data_mat(s, nullptr, nullptr, 0, nullptr, nullptr, 0); }}, {"osqp_update_settings", [&] { return osqp_update_settings(s, &st); }}, {"osqp_update_rho", [&] { return osqp_update_rho(s, (F)0.5); }}};
  I caps = osqp_capabilities();
  auto opt = [&](const char* nm, int bit, std::function<I()> f) { I g = f(); EV("guard_checks"); I want = caps & bit ? W : OSQP_FUNC_NOT_IMPLEMENTED; CHECK(g == want || (noncvx && bit == OSQP_CAPABILITY_CODEGEN && g == OSQP_NONCVX_ERROR), "guard", "%s on %s solver returned %d, expected %d", nm, kind, (int)g, (int)want); };
  for (size_t k = calls.size(); k > 1; k--) std::swap(calls[k - 1], calls[r.next() % k]);
  for (auto& c : calls) { I g = c.f(); EV("guard_checks"); CHECK(g == W, "guard", "%s on %s solver returned %d, expected %d", c.nm, kind, (int)g, (int)W); }
  osqp_cold_start(s); EV("guard_checks");
  opt("osqp_adjoint_derivative_compute", OSQP_CAPABILITY_DERIVATIVES, [&] { return osqp_adjoint_derivative_compute(s, v.data(), v.data()); });
  opt("osqp_adjoint_derivative_get_mat", OSQP_CAPABILITY_DERIVATIVES, [&] { return osqp_adjoint_derivative_get_mat(s, &dP.M, &dA.M); });
  opt("osqp_adjoint_derivative_get_vec", OSQP_CAPABILITY_DERIVATIVES, [&] { return osqp_adjoint_derivative_get_vec(s, v.data(), v.data(), v.data()); });
  opt("osqp_codegen", OSQP_CAPABILITY_CODEGEN, [&] { return osqp_codegen(s, "./", "none_", &cd); });
  CHECK(biteq(v, v0), "guard_wrote", "a refused call on %s solver wrote to its output", kind);
  I a = -5, b = -5; osqp_get_dimensions(s, &a, &b); EV("guard_checks"); CHECK((a == -1 && b == -1) || (dims && a == m && b == n), "dimensions", "dimensions of %s solver are reported as %d, %d", kind, (int)a, (int)b);
}
PROPERTY(P21) {
  mem_begin(); const char* ver = osqp_version(); CHECK(ver && *ver && !strcmp(ver, OSQP_VERSION), "version", "version '%s'", ver ? ver : "(null)");
  std::string d = defaults_str(); CHECK(d.empty(), "defaults", "%s", d.c_str()); EV("default_checks"); messages(r); I caps0 = osqp_capabilities();
#ifdef VF_MKL
  CHECK(caps0 == (OSQP_CAPABILITY_DIRECT_SOLVER | OSQP_CAPABILITY_INDIRECT_SOLVER | OSQP_CAPABILITY_UPDATE_MATRICES), "capabilities", "capabilities are %x", (int)caps0);
#else
  CHECK(caps0 == (OSQP_CAPABILITY_DIRECT_SOLVER | OSQP_CAPABILITY_UPDATE_MATRICES | OSQP_CAPABILITY_CODEGEN | OSQP_CAPABILITY_DERIVATIVES), "capabilities", "capabilities are %x", (int)caps0);
#endif
  osqp_set_default_settings(nullptr); osqp_set_default_codegen_defines(nullptr); OSQPSettings_free(nullptr); OSQPCodegenDefines_free(nullptr); OSQPCscMatrix_free(nullptr); CHECK(osqp_cleanup(nullptr) == 0, "cleanup_null", "osqp_cleanup(NULL) is not 0");
  not_ready(r, nullptr, "a null", 0, 0, false); OSQPSolver z; memset((void*)&z, 0, sizeof z); not_ready(r, &z, "a zeroed", 0, 0, false);
  Prob pb = r.chance(0.5) ? gen_noncvx(r) : gen_any(r); OSQPSettings st = rand_settings(r); G.note = prob_str(pb) + " | " + settings_str(st); SIG(G.note);
  { OSQPSolver* h = nullptr; int k = r.irange(0, 9);
#if defined(VF_TRACK)
    if (k < 6) { vf_mem_fail_at(r.irange(1, 90), r.chance(0.3)); EV("setups_with_fault"); }
#endif
    I f = raw_setup(&h, pb, &st);
#if defined(VF_TRACK)
    vf_mem_fail_at(0, 0);
#endif
    if (f) { EV("failed_setups"); if (h) { EV("failed_setups_with_handle"); not_ready(r, h, "an incompletely set up", pb.m, pb.n, true, f == OSQP_NONCVX_ERROR); I c = osqp_cleanup(h); CHECK(c == 0, "cleanup_failed", "osqp_cleanup of a failed setup returned %d", (int)c); } }
    else { I m, n; Solver S; S.s = h; S.n = pb.n; S.m = pb.m; Model M{pb, st}; int len = r.irange(0, 4); for (int t = 0; t <= len; t++) { osqp_get_dimensions(h, &m, &n); EV("dimension_checks"); CHECK(m == pb.m && n == pb.n, "dimensions", "dimensions are reported as m=%d n=%d, problem has m=%d n=%d", (int)m, (int)n, (int)pb.m, (int)pb.n); Op o = gen_op(r, M, st.linsys_solver == OSQP_DIRECT_SOLVER ? 255 : 255 & ~M_SET); if (o.k == GETS && !st.allocate_solution) continue; if (!op_apply(S, o)) model_apply(M, o); } } }
  // the optional features are there when they are announced, and only then
  { GenOpt o; o.nmax = 4; o.mmax = 4; o.mmin = 1; Prob p = gen_strict(r, o); OSQPSettings s = default_settings();
    s.linsys_solver = OSQP_INDIRECT_SOLVER; OSQPSolver* h = SENT; I f = raw_setup(&h, p, &s); CHECK((f == 0) == !!(caps0 & OSQP_CAPABILITY_INDIRECT_SOLVER), "capability_indirect", "setup with the indirect solver returned %d, capabilities %x", (int)f, (int)caps0); if (!f) osqp_cleanup(h);
    s.linsys_solver = OSQP_DIRECT_SOLVER; h = SENT; f = raw_setup(&h, p, &s); CHECK((f == 0) == !!(caps0 & OSQP_CAPABILITY_DIRECT_SOLVER), "capability_direct", "setup with the direct solver returned %d", (int)f);
    if (!f) { s.eps_abs = s.eps_rel = (F)1e-5; s.check_dualgap = 0; osqp_update_settings(h, &s); I g = osqp_update_data_mat(h, p.P.x.data(), nullptr, 0, p.A.x.data(), nullptr, 0); CHECK((g == 0) == !!(caps0 & OSQP_CAPABILITY_UPDATE_MATRICES), "capability_update", "matrix update returned %d", (int)g); osqp_solve(h); VF dx(p.n, 1), dy(p.m, 0); if (h->info->status_val == OSQP_SOLVED) { g = osqp_adjoint_derivative_compute(h, dx.data(), dy.data()); CHECK((g == OSQP_FUNC_NOT_IMPLEMENTED) == !(caps0 & OSQP_CAPABILITY_DERIVATIVES), "capability_derivatives", "derivatives returned %d, capabilities %x", (int)g, (int)caps0);
        OSQPCodegenDefines cd; osqp_set_default_codegen_defines(&cd); cd.float_type = 9; g = osqp_codegen(h, "./", "x_", &cd); CHECK((g == OSQP_FUNC_NOT_IMPLEMENTED) == !(caps0 & OSQP_CAPABILITY_CODEGEN), "capability_codegen", "code generation returned %d", (int)g); } osqp_cleanup(h); } }
  d = defaults_str(); CHECK(d.empty() && osqp_capabilities() == caps0 && !strcmp(osqp_version(), OSQP_VERSION), "history_dependent", "helper results changed after using a solver: %s", d.c_str()); mem_end("after the helper calls");
}

// ------------------------------------------------------------------ sparse matrix helpers
typedef std::vector<std::vector<L>> DM;
static bool valid_csc(const OSQPCscMatrix* M, I m, I n, bool sorted, const char* who) {
  bool ok = M->m == m && M->n == n && M->p && M->p[0] == 0; CHECK(M->m == m && M->n == n, "dims", "%s: dimensions %dx%d, expected %dx%d", who, (int)M->m, (int)M->n, (int)m, (int)n); if (!ok) { CHECK(M->p && M->p[0] == 0, "column_pointers", "%s: first column pointer", who); return false; }
  std::set<std::pair<I, I>> at; for (I j = 0; j < n; j++) { if (M->p[j + 1] < M->p[j]) { VIOL("column_pointers", strf("%s: column pointers decrease", who)); return false; } for (I k = M->p[j]; k < M->p[j + 1]; k++) { if (M->i[k] < 0 || M->i[k] >= m) { VIOL("row_index", strf("%s: row index %d of %d", who, (int)M->i[k], (int)m)); return false; } if (!at.insert({M->i[k], j}).second) { VIOL("duplicate_entry", strf("%s: entry (%d,%d) appears twice", who, (int)M->i[k], (int)j)); return false; } if (sorted && k > M->p[j] && M->i[k] <= M->i[k - 1]) { VIOL("unsorted", strf("%s: rows of column %d are not increasing", who, (int)j)); return false; } } }
  CHECK(M->nzmax >= M->p[n], "nzmax", "%s: nzmax %d is less than the %d entries", who, (int)M->nzmax, (int)M->p[n]); CHECK(M->nz == -1, "format", "%s: nz=%d, not marked as compressed columns", who, (int)M->nz); EV("matrices_checked"); return true;
}
static DM dense(const OSQPCscMatrix* M) { DM D(M->m, std::vector<L>(M->n, 0)); for (I j = 0; j < M->n; j++) for (I k = M->p[j]; k < M->p[j + 1]; k++) D[M->i[k]][j] += M->x[k]; return D; }
static Csc rcsc(Rng& r, I m, I n, bool triu, bool shuffled) { Csc c; c.m = m; c.n = n; c.p.assign(n + 1, 0); double dens = r.pick(VD{0, 0.2, 0.5, 1}); for (I j = 0; j < n; j++) { VI rows; for (I i = 0; i < (triu ? std::min<I>(j + 1, m) : m); i++) if (r.chance(dens)) rows.push_back(i); if (shuffled) for (size_t k = rows.size(); k > 1; k--) std::swap(rows[k - 1], rows[r.next() % k]); for (I i : rows) { c.i.push_back(i); c.x.push_back((F)(r.chance(0.1) ? 0.0 : r.gauss())); } c.p[j + 1] = (I)c.i.size(); } return c; }
static DM densec(const Csc& c) { DM D(c.m, std::vector<L>(c.n, 0)); for (I j = 0; j < c.n; j++) for (I k = c.p[j]; k < c.p[j + 1]; k++) D[c.i[k]][j] += c.x[k]; return D; }
static OSQPCscMatrix* libmat(Csc& c) { OSQPCscMatrix* M = csc_spalloc(c.m, c.n, c.nnz(), 1, 0); for (I j = 0; j <= c.n; j++) M->p[j] = c.p[j]; for (I k = 0; k < c.nnz(); k++) { M->i[k] = c.i[k]; M->x[k] = c.x[k]; } return M; }
PROPERTY(P22) {
  mem_begin(); I m = r.irange(0, 7), n = r.irange(0, 7); if (r.chance(0.2)) { m = r.irange(0, 40); n = r.irange(0, 40); } F a = (F)(r.chance(0.2) ? 0 : r.gauss()); G.note = strf("%d x %d", (int)m, (int)n); SIG(G.note); I mn = std::min(m, n);
  auto diag = [&](OSQPCscMatrix* M, I m, I n, std::function<F(I)> v, const char* who) { if (!M) { VIOL("null_result", who); return; } if (valid_csc(M, m, n, true, who)) { CHECK(M->p[n] == std::min(m, n), "count", "%s %dx%d has %d entries", who, (int)m, (int)n, (int)M->p[n]); for (I j = 0; j < n; j++) for (I k = M->p[j]; k < M->p[j + 1]; k++) { F e = v(j); CHECK(M->i[k] == j && memcmp(&M->x[k], &e, sizeof e) == 0, "wrong_entry", "%s %dx%d: entry (%d,%d)=%g", who, (int)m, (int)n, (int)M->i[k], (int)j, (double)M->x[k]); } } OSQPCscMatrix_free(M); };
  diag(OSQPCscMatrix_diag_scalar(m, n, a), m, n, [&](I) { return a; }, "OSQPCscMatrix_diag_scalar"); diag(OSQPCscMatrix_identity(n), n, n, [&](I) { return (F)1; }, "OSQPCscMatrix_identity");
  { VF v(mn); for (auto& e : v) e = (F)r.gauss(); F* p = (F*)malloc(mn * sizeof(F)); if (mn) memcpy(p, v.data(), mn * sizeof(F)); diag(OSQPCscMatrix_diag_vec(m, n, mn || r.chance(0.5) ? p : nullptr), m, n, [&](I j) { return v[j]; }, "OSQPCscMatrix_diag_vec"); CHECK(!mn || !memcmp(p, v.data(), mn * sizeof(F)), "argument_modified", "diag_vec changed its argument"); free(p); }
  { OSQPCscMatrix* M = OSQPCscMatrix_zeros(m, n); if (!M) VIOL("null_result", "OSQPCscMatrix_zeros"); else { if (valid_csc(M, m, n, true, "OSQPCscMatrix_zeros")) CHECK(M->p[n] == 0, "count", "OSQPCscMatrix_zeros has %d entries", (int)M->p[n]); OSQPCscMatrix_free(M); } }
  // views of caller memory: exact blocks of the caller's own, never freed or changed by the library
  { Csc c = rcsc(r, m, n, false, r.chance(0.3)); I nz = c.nnz(), extra = r.irange(0, 3); F* x = (F*)malloc((nz + extra) * sizeof(F)); I* i = (I*)malloc((nz + extra) * sizeof(I)); I* p = (I*)malloc((n + 1) * sizeof(I)); if (nz) { memcpy(x, c.x.data(), nz * sizeof(F)); memcpy(i, c.i.data(), nz * sizeof(I)); } memcpy(p, c.p.data(), (n + 1) * sizeof(I));
    auto same = [&](const OSQPCscMatrix* M, const char* who) { CHECK(M->m == m && M->n == n && M->x == x && M->i == i && M->p == p && M->nzmax == nz + extra && M->nz == -1 && M->owned == 0, "view", "%s does not describe the caller's arrays", who); valid_csc(M, m, n, false, who); };
    auto intact = [&](const char* who) { EV("ownership_checks"); CHECK((!nz || (!memcmp(x, c.x.data(), nz * sizeof(F)) && !memcmp(i, c.i.data(), nz * sizeof(I)))) && !memcmp(p, c.p.data(), (n + 1) * sizeof(I)), "caller_memory", "%s changed or released the caller's arrays", who); };
    OSQPCscMatrix* M = OSQPCscMatrix_new(m, n, nz + extra, x, i, p); if (!M) VIOL("null_result", "OSQPCscMatrix_new"); else { same(M, "OSQPCscMatrix_new"); OSQPCscMatrix_free(M); intact("OSQPCscMatrix_free"); }
    OSQPCscMatrix W; memset((void*)&W, 0xA5, sizeof W); OSQPCscMatrix_set_data(&W, m, n, nz + extra, x, i, p); same(&W, "OSQPCscMatrix_set_data"); intact("OSQPCscMatrix_set_data");
    // ---- internal utilities on the same matrix
    W.nzmax = nz; DM D = densec(c);
    OSQPCscMatrix* C = csc_copy(&W); if (!C) VIOL("null_result", "csc_copy"); else { if (valid_csc(C, m, n, false, "csc_copy")) { bool eq = true; for (I k = 0; k < nz; k++) eq = eq && C->i[k] == c.i[k] && !memcmp(&C->x[k], &c.x[k], sizeof(F)); CHECK(eq && C->x != x && C->i != i && C->p != p, "copy", "csc_copy is not an independent copy"); }
      CHECK(csc_is_eq(&W, C, 0) == 1, "is_eq", "a matrix does not equal its copy"); if (nz) { I k = r.irange(0, (int)nz - 1); F was = C->x[k]; C->x[k] = was + 2; CHECK(csc_is_eq(&W, C, 1) == 0 && csc_is_eq(&W, C, 3) == 1, "is_eq", "csc_is_eq with a difference of 2"); C->x[k] = was; } csc_spfree(C); }
    { F* dn_ = csc_to_dns(&W); if (m * n && !dn_) VIOL("null_result", "csc_to_dns"); else if (m * n) { bool eq = true; for (I j = 0; j < n; j++) for (I t = 0; t < m; t++) eq = eq && dn_[j * m + t] == D[t][j]; CHECK(eq, "to_dense", "csc_to_dns differs"); }
#if defined(VF_TRACK)
      if (dn_) vf_free(dn_);
#else
      if (dn_) free(dn_);
#endif
    }
    { VI rows(m); I cnt = 0; int mode = r.irange(0, 3); for (auto& e : rows) { e = mode == 0 ? 0 : mode == 1 ? 1 : r.pick(VI{0, 1, -1, 2}); cnt += e != 0; } F dm; (void)dm; I dz = 0; OSQPCscMatrix* R = csc_submatrix_byrows(&W, m ? rows.data() : &dz); if (!R) VIOL("null_result", "csc_submatrix_byrows"); else { if (valid_csc(R, cnt, n, false, "csc_submatrix_byrows")) { DM Q = dense(R); I t = 0; bool eq = true; for (I k = 0; k < m; k++) if (rows[k]) { for (I j = 0; j < n; j++) eq = eq && Q[t][j] == D[k][j]; t++; } CHECK(eq, "submatrix", "csc_submatrix_byrows selected the wrong entries"); EV("row_selections"); } csc_spfree(R); } }
    { // triplets in random order
      VI perm(nz), ti, tj; VF tx; for (I k = 0; k < nz; k++) perm[k] = k; for (size_t k = nz; k > 1; k--) std::swap(perm[k - 1], perm[r.next() % k]); VI colof(nz); for (I j = 0; j < n; j++) for (I k = c.p[j]; k < c.p[j + 1]; k++) colof[k] = j; for (I k : perm) { ti.push_back(c.i[k]); tj.push_back(colof[k]); tx.push_back(c.x[k]); }
      OSQPCscMatrix T; memset((void*)&T, 0, sizeof T); F dx_; I di_; T.m = m; T.n = n; T.nz = nz; T.nzmax = nz; T.i = nz ? ti.data() : &di_; T.p = nz ? tj.data() : &di_; T.x = nz ? tx.data() : &dx_; VI map(nz + 1, -1); OSQPCscMatrix* R = triplet_to_csc(&T, map.data()); if (!R) VIOL("null_result", "triplet_to_csc"); else { if (valid_csc(R, m, n, false, "triplet_to_csc")) { CHECK(dense(R) == D, "triplet", "triplet_to_csc has the wrong entries"); bool eq = true; for (I k = 0; k < nz; k++) eq = eq && map[k] >= 0 && map[k] < nz && R->x[map[k]] == tx[k] && R->i[map[k]] == ti[k]; CHECK(eq, "triplet_map", "the map from triplets to entries is wrong"); } csc_spfree(R); } }
    { Csc c2 = rcsc(r, r.irange(0, 6), n, false, false); CscView V2(c2); OSQPCscMatrix* R = vstack(&W, &V2.M); if (!R) VIOL("null_result", "vstack"); else { if (valid_csc(R, m + c2.m, n, false, "vstack")) { DM Q = dense(R), D2 = densec(c2); bool eq = true; for (I t = 0; t < m + c2.m; t++) for (I j = 0; j < n; j++) eq = eq && Q[t][j] == (t < m ? D[t][j] : D2[t - m][j]); CHECK(eq, "vstack", "vstack has the wrong entries"); } csc_spfree(R); } }
    intact("sparse utilities"); free(x); free(i); free(p); }
  { // symmetric utilities
    Csc s = rcsc(r, n, n, true, r.chance(0.3)); CscView V(s); DM D = densec(s); I nz = s.nnz();
    { VF d(n + 1, (F)9); csc_extract_diag(&V.M, d.data()); bool eq = d[n] == 9; for (I j = 0; j < n; j++) eq = eq && d[j] == D[j][j]; CHECK(eq, "extract_diag", "csc_extract_diag differs"); }
    { OSQPCscMatrix* R = triu_to_csc(&V.M); if (!R) VIOL("null_result", "triu_to_csc"); else { if (valid_csc(R, n, n, false, "triu_to_csc")) { DM Q = dense(R); bool eq = true; for (I i = 0; i < n; i++) for (I j = 0; j < n; j++) eq = eq && Q[i][j] == (i <= j ? D[i][j] : D[j][i]); CHECK(eq, "symmetric", "triu_to_csc is not the symmetric matrix"); } csc_spfree(R); } }
    { VI p(n); for (I k = 0; k < n; k++) p[k] = k; for (size_t k = n; k > 1; k--) std::swap(p[k - 1], p[r.next() % k]); I dz; I* pinv = csc_pinv(n ? p.data() : &dz, n); if (n && !pinv) VIOL("null_result", "csc_pinv"); else { bool eq = true; for (I k = 0; k < n; k++) eq = eq && pinv[p[k]] == k; CHECK(eq, "pinv", "csc_pinv is not the inverse");
        VI map(nz + 1, -1); OSQPCscMatrix* R = csc_symperm(&V.M, pinv, map.data(), 1); if (!R) VIOL("null_result", "csc_symperm"); else { if (valid_csc(R, n, n, false, "csc_symperm")) { DM Q = dense(R); bool eq = true; auto sym = [&](I a, I b) { return a <= b ? D[a][b] : D[b][a]; }; for (I i = 0; i < n; i++) for (I j = i; j < n; j++) eq = eq && Q[i][j] == sym(p[i], p[j]); for (I i = 0; i < n; i++) for (I j = 0; j < i; j++) eq = eq && Q[i][j] == 0; CHECK(eq, "symperm", "csc_symperm is not the permuted matrix"); for (I k = 0; k < nz; k++) CHECK(map[k] >= 0 && map[k] < nz && R->x[map[k]] == s.x[k], "symperm_map", "the map of csc_symperm is wrong at %d", (int)k); } csc_spfree(R); }
#if defined(VF_TRACK)
        if (pinv) vf_free(pinv);
#else
        if (pinv) free(pinv);
#endif
      } } }
  mem_end("after the matrix helpers");
}
