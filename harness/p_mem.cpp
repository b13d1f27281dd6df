// Memory: sanitizer-watched API histories (P17), failing allocations (P18), profiling sections (P35).
#include "history.h"
#if defined(VF_TRACK)
static long live0 = 0, bad0 = 0;
static void mem_begin() { vf_mem_forget(); live0 = vf_mem_live(); bad0 = vf_mem_badfree(); }
static void mem_end(const char* where) {
  CHECK(vf_mem_badfree() == bad0, "bad_free", "%s: a block was freed that was not allocated, or twice, or with the wrong function", where);
  CHECK(vf_mem_live() == live0, "leak", "%s: %ld blocks were not released: %s", where, vf_mem_live() - live0, vf_mem_describe_live()); EV("leak_checks"); vf_mem_forget();
}
#else
static void mem_begin() {} static void mem_end(const char*) {}
#endif
static Prob mem_problem(Rng& r) {
  int t = r.irange(0, 11); GenOpt o; o.nmax = 8; o.mmax = 10; Prob p;
  if (t == 0) { o.nmin = o.nmax = 1; o.mmin = 0; o.mmax = 1; p = gen_solvable(r, o); }
  else if (t == 1) { o.mmax = 0; p = gen_solvable(r, o); }
  else if (t == 2) { p = gen_solvable(r, o); p.P.p.assign(p.n + 1, 0); p.P.i.clear(); p.P.x.clear(); p.fam = "emptyP"; p.hasopt = false; }
  else if (t == 3) { p = gen_solvable(r, o); p.A.p.assign(p.n + 1, 0); p.A.i.clear(); p.A.x.clear(); p.fam = "emptyA"; p.hasopt = false; }
  else if (t == 4) { p = gen_solvable(r, o); for (auto& e : p.l) e = -INF; for (auto& e : p.u) e = INF; p.fam = "allfree"; p.hasopt = false; }
  else if (t == 5) p = gen_noncvx(r, o); else if (t == 6) p = gen_pinf(r, o); else if (t == 7) p = gen_dinf(r, o); else if (t == 8) p = gen_struct(r); else p = gen_any(r, o);
  return p;
}
// exact-size copies, so that red zones sit right behind every argument
struct Args {
  F *q, *l, *u, *Px, *Ax; I *Pp, *Pi, *Ap, *Ai; OSQPCscMatrix P, A;
  template <class T> static T* cp(const std::vector<T>& v) { T* p = (T*)malloc(v.size() * sizeof(T)); if (v.size()) memcpy(p, v.data(), v.size() * sizeof(T)); return p; }
  Args(const Prob& pb) { q = cp(pb.q); l = cp(pb.l); u = cp(pb.u); Px = cp(pb.P.x); Pi = cp(pb.P.i); Pp = cp(pb.P.p); Ax = cp(pb.A.x); Ai = cp(pb.A.i); Ap = cp(pb.A.p);
    OSQPCscMatrix_set_data(&P, pb.n, pb.n, pb.P.nnz(), Px, Pi, Pp); OSQPCscMatrix_set_data(&A, pb.m, pb.n, pb.A.nnz(), Ax, Ai, Ap); }
  void drop() { free(q); free(l); free(u); free(Px); free(Pi); free(Pp); free(Ax); free(Ai); free(Ap); q = nullptr; }
  ~Args() { if (q) drop(); }
};
static I setup_exact(Solver& S, const Prob& pb, const OSQPSettings& st) {
  Args* a = new Args(pb); S.n = pb.n; S.m = pb.m; S.s = nullptr;
  S.flag = osqp_setup(&S.s, &a->P, a->q, &a->A, a->l, a->u, pb.m, pb.n, &st); delete a; return S.flag;   // the solver must not keep the arguments
}
static void retrieve_exact(Solver& S) {
  OSQPSolution sol; sol.x = (F*)malloc(S.n * sizeof(F)); sol.dual_inf_cert = (F*)malloc(S.n * sizeof(F)); sol.y = (F*)malloc(S.m * sizeof(F)); sol.prim_inf_cert = (F*)malloc(S.m * sizeof(F));
  osqp_get_solution(S.s, &sol); free(sol.x); free(sol.y); free(sol.prim_inf_cert); free(sol.dual_inf_cert);
}
static I bad_call(Rng& r, Solver& S, const Model& m) {
  const Prob& p = m.pb; I nP = p.P.nnz(), nA = p.A.nnz(); VF big((size_t)std::max(nP, nA) + 8, (F)3); VI idx(big.size(), 0);
  switch (r.irange(0, 6)) {
    case 0: if (p.m) { VF l(p.m, 1), u(p.m, 2); l[r.irange(0, (int)p.m - 1)] = 3; return osqp_update_data_vec(S.s, r.chance(0.5) ? big.data() : nullptr, l.data(), u.data()); } return 1;
    case 1: return osqp_update_data_mat(S.s, big.data(), idx.data(), nP + 2, nullptr, nullptr, 0);
    case 2: return osqp_update_data_mat(S.s, nullptr, nullptr, 0, big.data(), idx.data(), nA + 3);
    case 3: return osqp_update_rho(S.s, (F)-1);
    case 4: { OSQPSettings b = *S.s->settings; b.alpha = 3; return osqp_update_settings(S.s, &b); }
    case 5: return osqp_get_solution(S.s, nullptr);
    default: return osqp_update_settings(S.s, nullptr);
  }
}
#ifdef OSQP_ENABLE_DERIVATIVES
static void derivatives(Rng& r, Solver& S, const Model& m) {
  VF dx(m.pb.n), dy(m.pb.m); for (auto& e : dx) e = (F)r.gauss(); for (auto& e : dy) e = (F)r.gauss();
  I f = osqp_adjoint_derivative_compute(S.s, dx.data(), m.pb.m ? dy.data() : dx.data()); EV("derivative_calls"); if (f) return;
  VF dq(m.pb.n), dl(m.pb.m), du(m.pb.m); osqp_adjoint_derivative_get_vec(S.s, dq.data(), m.pb.m ? dl.data() : dq.data(), m.pb.m ? du.data() : dq.data());
  Csc P = m.pb.P, A = m.pb.A; CscView vP(P), vA(A); osqp_adjoint_derivative_get_mat(S.s, &vP.M, &vA.M);
}
#endif
PROPERTY(P17) {
  mem_begin();
  { Prob pb = mem_problem(r); OSQPSettings st = rand_settings(r); if (st.max_iter > 200) st.max_iter = r.pick(VI{1, 10, 60, 200}); st.allocate_solution = r.chance(0.9);
    if (r.chance(0.3)) { st.polishing = 1; } if (r.chance(0.1)) st.time_limit = (F)1e-9; st.profiler_level = r.irange(0, 2);
    bool spoil = r.chance(0.08); std::string sp; OSQPSettings s0 = st;
    if (spoil) { int w = r.irange(0, 4); if (w == 0) st.alpha = 2; if (w == 1) st.rho = 0; if (w == 2) st.max_iter = 0; if (w == 3 && pb.m) { pb.l[0] = 2; pb.u[0] = 1; } if (w == 4) st.linsys_solver = OSQP_UNKNOWN_SOLVER; sp = strf(" spoiled:%d", w); }
    Model m{pb, st}; std::vector<Op> none; G.note = prob_str(pb) + " | " + settings_str(st) + sp; SIG(G.note);
    Solver S; setup_exact(S, pb, st); EV(S.flag ? strf("setup_failed:%d", (int)S.flag).c_str() : "setups");
    if (S.flag) { if (S.s) { osqp_solve(S.s); osqp_update_rho(S.s, (F)0.5); } }
    else { int len = r.irange(2, 9); std::string script; bool direct = st.linsys_solver == OSQP_DIRECT_SOLVER;
      for (int k = 0; k < len; k++) {
        Op o = k == 0 ? op_solve() : gen_op(r, m, direct ? 255 : 255 & ~M_SET); script += op_str(o) + " "; G.note = prob_str(pb) + " | " + settings_str(st) + " | " + script;
        if (o.k == SOLVE && !st.allocate_solution) { /* solve without stored solution */ }
        I f = o.k == GETS ? 0 : op_apply(S, o, r.chance(0.5)); EV("api_calls"); EV(strf("op:%s:%s", op_str(o).substr(0, 4).c_str(), f ? "err" : "ok").c_str()); if (!f) model_apply(m, o);
        if (o.k == GETS || r.chance(0.2)) { retrieve_exact(S); EV("api_calls"); }
        if (r.chance(0.2)) { bad_call(r, S, m); EV("rejected_calls"); }
        if (o.k == MAT && r.chance(0.15) && m.pb.P.nnz()) {   // to a non-convex cost and back
          VF px = m.pb.P.x; for (auto& e : px) e = -fabs(e) - 1000; I g = osqp_update_data_mat(S.s, px.data(), nullptr, (I)px.size(), nullptr, nullptr, 0); EV(g ? "nonconvex_update_refused" : "nonconvex_update_accepted"); osqp_solve(S.s);
          osqp_update_data_mat(S.s, m.pb.P.x.data(), nullptr, (I)px.size(), nullptr, nullptr, 0); }
#ifdef OSQP_ENABLE_DERIVATIVES
        if (o.k == SOLVE && S.status() == OSQP_SOLVED && direct && st.allocate_solution && r.chance(0.3)) derivatives(r, S, m);
#endif
      }
      SIG(script);
      if (st.allocate_solution && has_sol(S.status())) { VF x = S.x(); volatile F a = 0; for (auto e : x) if (e > 0) a = a + e; if (S.s->info->obj_val > 0) a = a + 1; EV("outputs_read"); }
    }
    S.free_(); EV("cleanups");
    (void)s0;
  }
  mem_end("after cleanup");
}
#if defined(VF_TRACK)
// ------------------------------------------------------------------ failing allocations
struct Step { std::string name; I flag; long inj; };
struct Script { Prob pb; OSQPSettings st; std::vector<Op> ops; bool deriv = false; int kind = 0; VF dx, dy; };
static Csc tiny(Rng& r) { Csc c; c.m = r.irange(1, 4); c.n = r.irange(1, 4); c.p.assign(c.n + 1, 0); for (I j = 0; j < c.n; j++) { for (I i = 0; i < c.m; i++) if (r.chance(0.5)) { c.i.push_back(i); c.x.push_back((F)r.gauss()); } c.p[j + 1] = (I)c.i.size(); } return c; }
static void run_script(const Script& sc, std::vector<Step>& log, bool again) {
  auto step = [&](const char* nm, I f, long before) { log.push_back(Step{nm, f, vf_mem_injected() - before}); };
  if (sc.kind == 1) {     // matrix and settings constructors
    long b = vf_mem_injected(); Rng r(sc.pb.n * 77 + sc.pb.m); Csc c = tiny(r); 
    OSQPCscMatrix* M = OSQPCscMatrix_new(c.m, c.n, c.nnz(), c.x.data(), c.i.data(), c.p.data()); step("OSQPCscMatrix_new", M == nullptr, b); OSQPCscMatrix_free(M);
    b = vf_mem_injected(); M = OSQPCscMatrix_zeros(3, 4); step("OSQPCscMatrix_zeros", M == nullptr, b); OSQPCscMatrix_free(M);
    b = vf_mem_injected(); M = OSQPCscMatrix_identity(4); step("OSQPCscMatrix_identity", M == nullptr, b); OSQPCscMatrix_free(M);
    b = vf_mem_injected(); M = OSQPCscMatrix_diag_scalar(4, 3, (F)2); step("OSQPCscMatrix_diag_scalar", M == nullptr, b); OSQPCscMatrix_free(M);
    F d[3] = {1, 2, 3}; b = vf_mem_injected(); M = OSQPCscMatrix_diag_vec(3, 5, d); step("OSQPCscMatrix_diag_vec", M == nullptr, b); OSQPCscMatrix_free(M);
    b = vf_mem_injected(); OSQPSettings* s = OSQPSettings_new(); step("OSQPSettings_new", s == nullptr, b); OSQPSettings_free(s);
    b = vf_mem_injected(); OSQPCodegenDefines* g = OSQPCodegenDefines_new(); step("OSQPCodegenDefines_new", g == nullptr, b); OSQPCodegenDefines_free(g);
    return;
  }
  Prob pb = sc.pb; Solver S; long b = vf_mem_injected(); setup_exact(S, pb, sc.st); step("setup", S.flag, b);
  if (!S.flag) for (auto& o : sc.ops) {
    b = vf_mem_injected(); I f = op_apply(S, o); long inj = vf_mem_injected() - b; step(op_str(o).c_str(), f, b);
    if (inj) { if (again && (o.k == SOLVE || o.k == VEC || o.k == RHO)) { vf_mem_fail_at(0, 0); op_apply(S, o); } break; }
#ifdef OSQP_ENABLE_DERIVATIVES
    if (o.k == SOLVE && sc.deriv && S.status() == OSQP_SOLVED) { b = vf_mem_injected(); F d; I g = osqp_adjoint_derivative_compute(S.s, const_cast<F*>(sc.dx.data()), pb.m ? const_cast<F*>(sc.dy.data()) : &d); step("adjoint_derivative_compute", g, b); if (g) break;
      VF dq(pb.n), dl(pb.m), du(pb.m); b = vf_mem_injected(); g = osqp_adjoint_derivative_get_vec(S.s, dq.data(), pb.m ? dl.data() : &d, pb.m ? du.data() : &d); step("adjoint_derivative_get_vec", g, b); if (g) break;
      Csc P = pb.P, A = pb.A; CscView vP(P), vA(A); b = vf_mem_injected(); g = osqp_adjoint_derivative_get_mat(S.s, &vP.M, &vA.M); step("adjoint_derivative_get_mat", g, b); if (g) break; }
#endif
  }
  S.free_();
}
PROPERTY(P18) {
  Script sc; GenOpt o; o.nmax = 4; o.mmax = 5; sc.kind = r.chance(0.1) ? 1 : 0; bool struc = false;
  sc.pb = r.chance(0.7) ? gen_strict(r, o) : gen_any(r, o); sc.st = rand_settings(r); if (sc.st.max_iter > 100) sc.st.max_iter = 100; sc.st.polishing = r.chance(0.7); if (sc.st.polishing && sc.st.eps_abs < 1e-4) sc.st.eps_abs = (F)1e-4; (void)struc;
  if (sc.st.polish_refine_iter == 0 && r.chance(0.5)) sc.st.polish_refine_iter = 2;
  if (sc.kind == 0) { Model m{sc.pb, sc.st}; sc.ops.push_back(op_solve()); int len = r.irange(1, 4); for (int k = 0; k < len; k++) { Op p = gen_op(r, m, M_SOLVE | M_VEC | M_MAT | M_RHO | M_WARM); sc.ops.push_back(p); model_apply(m, p); } sc.ops.push_back(op_solve());
    sc.deriv = false; sc.dx.assign(sc.pb.n, 1); sc.dy.assign(sc.pb.m, (F)0.5); }
  std::string base = sc.kind ? std::string("constructors") : prob_str(sc.pb) + " | " + settings_str(sc.st) + " | " + ops_str(sc.ops) + (sc.deriv ? "deriv" : ""); G.note = base; SIG(base);
  std::vector<Step> ref; mem_begin(); vf_mem_fail_at(0, 0); run_script(sc, ref, false); long total = vf_mem_count(); mem_end("no failures"); EV("allocations_seen", total);
  for (long k = 1; k <= total; k++) for (int sticky = 0; sticky < 2; sticky++) {
    if (sticky && G.tier == 0 && k % 3 != G.cas % 3) continue;
    G.note = base + strf(" | allocation %ld of %ld fails%s", k, total, sticky ? ", and all after it" : ""); fprintf(stderr, "%s\n", G.note.c_str());
    std::vector<Step> log; mem_begin(); vf_mem_fail_at(k, sticky); run_script(sc, log, !sticky); long inj = vf_mem_injected(); vf_mem_fail_at(0, 0); EV("injected_failures", inj > 0);
    for (auto& s : log) if (s.inj) { EV(("fault_in:" + s.name.substr(0, 4)).c_str()); CHECK(s.flag != 0, "reported_success", "%s returned success although a memory request failed", s.name.c_str()); break; }
    mem_end(log.empty() ? "failed setup" : log.back().name.c_str());
  }
}
#endif
#if defined(VF_ANN)
// ------------------------------------------------------------------ profiling sections
extern "C" {
#include "profilers.h"
}
static std::vector<int> stack_; static long pushes = 0; static std::string trouble; static int lvl_ = 0;
extern "C" void _osqp_profiler_init(int level) { lvl_ = level; }
extern "C" void _osqp_profiler_update_level(int level) { lvl_ = level; }
extern "C" void _osqp_profiler_sec_push(OSQPProfilerSection s) { if (s < 0 || s >= OSQP_PROFILER_SEC_ARRAY_LAST) trouble = "unknown section"; stack_.push_back((int)s); pushes++; }
extern "C" void _osqp_profiler_sec_pop(OSQPProfilerSection s) {
  if (stack_.empty()) { if (trouble.empty()) trouble = strf("%s left but no section is open", osqp_profiler_sections[s].name); return; }
  if (stack_.back() != (int)s && trouble.empty()) trouble = strf("%s left while %s is open", osqp_profiler_sections[s].name, osqp_profiler_sections[stack_.back()].name);
  stack_.pop_back();
}
extern "C" void _osqp_profiler_event_mark(OSQPProfilerEvent e) { if (e < 0 || e >= OSQP_PROFILER_EVENT_ARRAY_LAST) trouble = "unknown event"; EV("event_marks"); }
static void balanced(const char* what) {
  EV("balance_checks"); EV("sections", pushes); pushes = 0; CHECK(trouble.empty(), "bad_nesting", "%s: %s", what, trouble.c_str());
  CHECK(stack_.empty(), strf("left_open:%s", stack_.empty() ? "" : osqp_profiler_sections[stack_.back()].name).c_str(), "%s returned with section %s open", what, stack_.empty() ? "" : osqp_profiler_sections[stack_.back()].name); stack_.clear(); trouble.clear();
}
PROPERTY(P35) {
  Prob pb = mem_problem(r); OSQPSettings st = rand_settings(r); if (st.max_iter > 200) st.max_iter = r.pick(VI{1, 10, 60, 200}); st.profiler_level = r.irange(0, 2); if (r.chance(0.1)) st.time_limit = (F)1e-9; if (r.chance(0.4)) st.polishing = 1;
  int spoil = r.chance(0.15) ? r.irange(0, 5) : -1; if (spoil == 0) st.alpha = 2; if (spoil == 1) st.rho = 0; if (spoil == 2) st.max_iter = 0; if (spoil == 3 && pb.m) { pb.l[0] = 2; pb.u[0] = 1; } if (spoil == 4) st.linsys_solver = OSQP_UNKNOWN_SOLVER;
  if (spoil == 5) { vf_mem_fail_at(r.irange(1, 60), r.chance(0.3)); }
  Model m{pb, st}; G.note = prob_str(pb) + " | " + settings_str(st) + strf(" spoil=%d", spoil); SIG(G.note); stack_.clear(); trouble.clear(); pushes = 0;
  Solver S(pb, st); vf_mem_fail_at(0, 0); EV(S.flag ? strf("setup_failed:%d", (int)S.flag).c_str() : "setups"); balanced("osqp_setup"); CHECK(S.flag || lvl_ == (int)st.profiler_level, "level", "annotation level %d, setting %d", lvl_, (int)st.profiler_level);
  if (!S.flag) { int len = r.irange(2, 8); std::string script; bool direct = st.linsys_solver == OSQP_DIRECT_SOLVER;
    for (int k = 0; k < len; k++) { Op o = k == 0 ? op_solve() : gen_op(r, m, direct ? 255 : 255 & ~M_SET); script += op_str(o) + " "; G.note = prob_str(pb) + " | " + settings_str(st) + " | " + script;
      if (o.k == SETT) o.st.profiler_level = r.irange(0, 2); bool fail = r.chance(0.1); if (fail) vf_mem_fail_at(r.irange(1, 40), 0);
      I f = op_apply(S, o); vf_mem_fail_at(0, 0); EV("api_calls"); if (f) EV("failed_calls"); balanced(op_str(o).c_str()); if (!f) model_apply(m, o); if (f && fail) break;
      if (o.k == SETT && !f) CHECK(lvl_ == (int)o.st.profiler_level, "level", "annotation level %d, setting %d", lvl_, (int)o.st.profiler_level);
      if (r.chance(0.2)) { bad_call(r, S, m); EV("rejected_calls"); balanced("a rejected call"); }
      if (m.pb.P.nnz() && r.chance(0.06)) { VF px(m.pb.P.x.size(), -1000); I g = osqp_update_data_mat(S.s, px.data(), nullptr, (I)px.size(), nullptr, nullptr, 0); EV(g ? "nonconvex_update_refused" : "nonconvex_update_accepted"); balanced("a non-convex update"); if (g) break; osqp_solve(S.s); balanced("osqp_solve"); break; }
    } SIG(script); }
  S.free_(); balanced("osqp_cleanup");
}
#endif
