// Printing (P27): silence when off, identical results and truthful text when on.
#include "history.h"
#include <unistd.h>
#include <sys/mman.h>
#ifdef OSQP_ENABLE_PRINTING
enum { PRINTS = 1 };
#else
enum { PRINTS = 0 };
#endif
// ------------------------------------------------------------------ everything the process writes meanwhile
struct Cap {
  static int fd() { static int f = memfd_create("vf_out", 0); return f; }
  int o1, o2; bool done = false; std::string text;
  Cap() { fflush(stdout); fflush(stderr); lseek(fd(), 0, SEEK_SET); if (ftruncate(fd(), 0)) {} o1 = dup(1); o2 = dup(2); dup2(fd(), 1); dup2(fd(), 2); }
  const std::string& end() {
    if (done) return text; done = true; fflush(stdout); fflush(stderr); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2);
    off_t n = lseek(fd(), 0, SEEK_CUR); text.resize((size_t)n); if (n && pread(fd(), &text[0], (size_t)n, 0) != n) text.clear(); EV("captures"); EV("bytes", (long)n); return text; }
  ~Cap() { end(); }
};
static std::vector<std::string> lines_of(const std::string& t) { std::vector<std::string> v; size_t a = 0; while (a < t.size()) { size_t b = t.find('\n', a); if (b == std::string::npos) b = t.size(); v.push_back(t.substr(a, b - a)); a = b + 1; } return v; }
static bool has(const std::string& t, const std::string& s) { return t.find(s) != std::string::npos; }
static std::string head(const std::string& t) { std::string s = t.substr(0, 160); for (auto& c : s) if (c == '\n') c = '|'; return s; }
// ------------------------------------------------------------------ header of the setup
static void check_header(const std::string& t, const Prob& pb, const OSQPSettings& s) {
  auto want = [&](const std::string& w) { EV("header_facts"); CHECK(has(t, w), "header", "the setup header lacks '%s': %s", w.c_str(), t.c_str()); };
  want(strf("variables n = %i, constraints m = %i\n", (int)pb.n, (int)pb.m)); want(strf("nnz(P) + nnz(A) = %i\n", (int)(pb.P.nnz() + pb.A.nnz())));
  want(strf("OSQPInt = %i bytes, OSQPFloat = %i bytes", (int)sizeof(I), (int)sizeof(F)));
  want(strf("eps_abs = %.1e, eps_rel = %.1e,", (double)s.eps_abs, (double)s.eps_rel)); want(strf("eps_prim_inf = %.1e, eps_dual_inf = %.1e,", (double)s.eps_prim_inf, (double)s.eps_dual_inf));
  want(strf("rho = %.2e ", (double)s.rho)); want(strf("sigma = %.2e, alpha = %.2f, ", (double)s.sigma, (double)s.alpha)); want(strf("max_iter = %i\n", (int)s.max_iter));
  int iv = (int)s.adaptive_rho_interval;
  want(s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_DISABLED ? "(adaptive: disabled)" : s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS ? strf("(adaptive: %d iterations)", iv) : s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME ? "(adaptive: time)" : strf("(adaptive: kkt error, interval %d)", iv));
  want(s.check_termination ? strf("check_termination: on (interval %i, duality gap: %s)", (int)s.check_termination, s.check_dualgap ? "on" : "off") : "check_termination: off");
#ifdef OSQP_ENABLE_PROFILING
  if (s.time_limit > 0) want(strf("time_limit: %.2e sec", (double)s.time_limit));
#endif
  want(s.scaling ? strf("scaling: on (%i iterations)", (int)s.scaling) : " scaling: off"); want(s.scaled_termination ? "scaled_termination: on" : "scaled_termination: off"); want(s.warm_starting ? "warm starting: on" : "warm starting: off"); want(s.polishing ? "polishing: on" : "polishing: off");
}
// ------------------------------------------------------------------ the table and the summary of a solve
struct Row { I iter; bool polish; std::string obj, prim, dual, gap, kkt, rho; bool star; };
static std::string tok(const char* f, F v) { std::string s = strf(f, (double)v); size_t a = s.find_first_not_of(' '); return s.substr(a); }
static bool parse_row(const std::string& l, Row& w) {
  char a[64], b[64], c[64], d[64], e[64], f[64], g[64]; if (sscanf(l.c_str(), " %63s %63s %63s %63s %63s %63s %63s", a, b, c, d, e, f, g) != 7) return false;
  char* end; w.polish = !strcmp(a, "plsh"); w.iter = w.polish ? 0 : (I)strtol(a, &end, 10); if (!w.polish && *end) return false; w.obj = b; w.prim = c; w.dual = d; w.gap = e; w.kkt = f; w.rho = g; w.star = !w.rho.empty() && w.rho.back() == '*'; if (w.star) w.rho.pop_back(); return true;
}
static std::string num(const OSQPInfo& in) { return tok("%.4e", in.obj_val) + " " + tok("%.2e", in.prim_res) + " " + tok("%.2e", in.dual_res) + " " + tok("%.2e", in.duality_gap) + " " + tok("%.2e", in.rel_kkt_error); }
static std::string num(const Row& w) { return w.obj + " " + w.prim + " " + w.dual + " " + w.gap + " " + w.kkt; }
static std::vector<Row> check_solve_text(const std::string& t, const Solver& S, const OSQPSettings& st, bool full) {
  std::vector<Row> rows; auto ls = lines_of(t); const OSQPInfo& in = *S.s->info; bool plsh = false; size_t k = 0;
  for (; k < ls.size() && ls[k].compare(0, 5, "iter "); k++) {}
  CHECK(k < ls.size(), "table", "no table in: %s", t.c_str());
  for (k++; k < ls.size() && !ls[k].empty(); k++) { Row w; if (!parse_row(ls[k], w)) continue; if (w.polish) plsh = true; rows.push_back(w); EV("rows"); }
  I last = 0; for (auto& w : rows) if (!w.polish) { CHECK(w.iter >= last, "row_order", "iteration %d printed after %d", (int)w.iter, (int)last); last = w.iter; }
  EV("summaries"); auto want = [&](const std::string& w, bool yes = true) { EV("summary_facts"); CHECK(has(t, w) == yes, "summary", "the printed summary %s '%s': %s", yes ? "lacks" : "should not have", w.c_str(), t.c_str()); };
  want(strf("status:               %s\n", in.status)); want(strf("number of iterations: %i\n", (int)in.iter));
  bool sol = in.status_val == OSQP_SOLVED || in.status_val == OSQP_SOLVED_INACCURATE;
  if (sol) { want(strf("optimal objective:    %.4f\n", (double)in.obj_val)); want(strf("dual objective:       %.4f\n", (double)in.dual_obj_val)); want(strf("duality gap:          %.4e\n", (double)in.duality_gap)); want(strf("primal-dual integral: %.4e\n", (double)in.primdual_int)); }
  else want("optimal objective", false);
#ifdef OSQP_ENABLE_PROFILING
  want(strf("run time:             %.2es\n", (double)in.run_time));
#endif
  want(strf("optimal rho estimate: %.2e\n", (double)in.rho_estimate));
  if (st.polishing && in.status_val == OSQP_SOLVED && in.status_polish != OSQP_POLISH_NOT_PERFORMED) want(strf("solution polishing:   %s\n", in.status_polish == OSQP_POLISH_SUCCESS ? "successful" : in.status_polish < 0 ? "unsuccessful" : "not needed")); else want("solution polishing", false);
  if (!full) return rows;
  CHECK(last == in.iter, "last_row", "the table ends with iteration %d, the solve took %d (%s)", (int)last, (int)in.iter, in.status);
  CHECK(plsh == (in.status_polish == OSQP_POLISH_SUCCESS), "polish_row", "the table %s a polish row, polish status %d", plsh ? "has" : "lacks", (int)in.status_polish);
  if (!rows.empty() && has_sol(in.status_val)) { auto& w = rows.back(); EV("final_rows"); CHECK(num(w) == num(in), "final_row", "last row '%s', info '%s' (%s)", num(w).c_str(), num(in).c_str(), in.status); }
  if (!rows.empty()) for (size_t i = rows.size(); i-- > 0;) if (!rows[i].polish) { EV("rho_facts"); CHECK(rows[i].rho == tok("%.2e", S.s->settings->rho), "row_rho", "last row prints rho %s, it is %g", rows[i].rho.c_str(), (double)S.s->settings->rho); break; }
  return rows;
}
// ------------------------------------------------------------------ histories
static OSQPSettings with_verbose(OSQPSettings s, I v) { s.verbose = v; return s; }
PROPERTY(P27) {
  GenOpt o; o.nmax = 8; o.mmax = 10; int t = r.irange(0, 19); Prob pb = t < 8 ? gen_solvable(r, o) : t < 11 ? gen_strict(r, o) : t < 13 ? gen_pinf(r, o) : t < 15 ? gen_dinf(r, o) : t < 16 ? gen_noncvx(r, o) : gen_any(r, o);
  OSQPSettings st = rand_settings(r, true); if (st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME) st.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS; if (r.chance(0.3)) st.max_iter = r.irange(1, 900); if (r.chance(0.2)) st.time_limit = (F)r.logu(1e3, 1e10);
  Model m{pb, st}; std::vector<Op> ops = gen_ops(r, m, 255, r.irange(1, 6)); if (!r.chance(0.1)) ops.push_back(op_solve());
  for (auto& q : ops) if (q.k == SETT && q.st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME) q.st.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS;
  G.note = prob_str(pb) + " | " + settings_str(st) + " | " + ops_str(ops); SIG(G.note);
  Solver Q, V, W;                  // quiet, verbose, toggling
  { Cap c; I f = Q.setup(pb, with_verbose(st, 0)); c.end(); EV("quiet_calls"); CHECK(f || c.text.empty(), "noise", "setup with printing off writes: %s", head(c.text).c_str()); CHECK(PRINTS || c.text.empty(), "noise_disabled", "setup writes in a build without printing: %s", head(c.text).c_str()); }
  { Cap c; I f = V.setup(pb, with_verbose(st, 1)); c.end(); CHECK(f == Q.flag, "printing_changes_setup", "setup returns %d with printing and %d without", (int)f, (int)Q.flag); if (!f && PRINTS) check_header(c.text, pb, *V.s->settings); CHECK(PRINTS || c.text.empty(), "noise_disabled", "setup writes in a build without printing: %s", head(c.text).c_str()); }
  bool on = r.chance(0.5); { Cap c; W.setup(pb, with_verbose(st, on)); c.end(); if (PRINTS && !W.flag) CHECK(on == !c.text.empty(), "toggle", "printing %d: setup writes '%s'", (int)on, head(c.text).c_str()); }
  if (Q.flag || V.flag || W.flag) { EV("setup_failed"); return; }
  std::vector<Op> sofar;
  for (auto& q : ops) {
    Op a = q, b = q; a.st.verbose = 0; b.st.verbose = 1;
    Snap s1, s2, s3; I f1, f2, f3; std::vector<Row> rows;
    { Cap c; f1 = op_apply(Q, a); c.end(); EV("quiet_calls"); CHECK(f1 || c.text.empty(), "noise", "%s with printing off writes: %s", op_str(q).c_str(), head(c.text).c_str()); CHECK(PRINTS || c.text.empty(), "noise_disabled", "writes in a build without printing: %s", head(c.text).c_str()); }
    { Cap c; f2 = op_apply(V, b); c.end(); if (q.k == SOLVE && PRINTS) { bool noise = has(c.text, "ERROR"); CHECK(f2 == 0 ? !noise : true, "error_text", "an error message from a successful solve: %s", head(c.text).c_str()); if (!f2) rows = check_solve_text(c.text, V, *V.s->settings, !noise); } CHECK(PRINTS || c.text.empty(), "noise_disabled", "writes in a build without printing: %s", head(c.text).c_str()); }
    if (r.chance(0.4)) { OSQPSettings s = *W.s->settings; on = !on; s.verbose = on; Cap c; I f = osqp_update_settings(W.s, &s); c.end(); CHECK(!f && c.text.empty(), "toggle_failed", "switching printing returns %d and writes '%s'", (int)f, head(c.text).c_str()); }
    { Op w = q; w.st.verbose = on; Cap c; f3 = op_apply(W, w); c.end(); if (!on) { EV("quiet_calls"); CHECK(f3 || c.text.empty(), "noise", "%s with printing switched off writes: %s", op_str(q).c_str(), head(c.text).c_str()); } else if (q.k == SOLVE && PRINTS && !f3) { EV("toggled_summaries"); CHECK(has(c.text, strf("status:               %s\n", W.s->info->status)) && has(c.text, strf("number of iterations: %i\n", (int)W.s->info->iter)), "toggle", "printing was switched on, the solve writes: %s", head(c.text).c_str()); } }
    CHECK(f1 == f2 && f1 == f3, "printing_changes_code", "%s returns %d without and %d, %d with printing", op_str(q).c_str(), (int)f1, (int)f2, (int)f3); if (f1 != f2 || f1 != f3) return;
    s1 = snap(Q, f1); s2 = snap(V, f2); s3 = snap(W, f3); std::string d = snap_diff(s1, s2, 0, true); if (d.empty()) d = snap_diff(s1, s3, 0, true); EV("twin_compares"); CHECK(d.empty(), "printing_changes_results", "after %s results differ with printing: %s", op_str(q).c_str(), d.c_str()); if (!d.empty()) return;
    if (q.k == SOLVE && !f1 && rows.size() > 1 && r.chance(0.35)) {            // is a row what a solve stopped there reports?
      auto& w = rows[r.next() % rows.size()]; if (!w.polish && w.iter < V.s->info->iter) {
        Cap c; Solver T; if (!T.setup(pb, with_verbose(st, 0))) { bool ok = true; for (auto& p : sofar) { Op z = p; z.st.verbose = 0; if (op_apply(T, z)) ok = false; }
          OSQPSettings s = *T.s->settings; s.verbose = 0; s.max_iter = w.iter; s.polishing = 0; I f = osqp_update_settings(T.s, &s); if (!f) f = osqp_solve(T.s); c.end();
          if (ok && !f && T.s->info->iter == w.iter && has_sol(T.s->info->status_val)) { EV("rows_verified"); CHECK(num(w) == num(*T.s->info), "row_untrue", "row %d prints '%s', a solve stopped there reports '%s'", (int)w.iter, num(w).c_str(), num(*T.s->info).c_str()); CHECK(w.rho == tok("%.2e", T.s->settings->rho), "row_rho", "row %d prints rho %s, a solve stopped there has %g", (int)w.iter, w.rho.c_str(), (double)T.s->settings->rho); } } } }
    sofar.push_back(q); if (f1) { EV("failed_steps"); return; }
  }
  { Cap c; Q.free_(); c.end(); CHECK(c.text.empty(), "noise", "cleanup with printing off writes: %s", head(c.text).c_str()); }
}
