// Generated code, compiled and executed next to the solver it was generated from (P32).
#include "history.h"
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>
#ifdef OSQP_CODEGEN
#if defined(__SANITIZE_ADDRESS__)
#define SANFLAGS " -fsanitize=address,undefined -fno-sanitize=float-divide-by-zero,float-cast-overflow -fno-sanitize-recover=all"
#else
#define SANFLAGS ""
#endif
static std::string env(const char* k, const char* d) { const char* v = getenv(k); return v ? v : d; }
static std::string slurp(const std::string& f) { std::ifstream s(f); std::stringstream b; b << s.rdbuf(); return b.str(); }
static int sh(const std::string& c, std::string* err) { static std::string log = env("VF_SCRATCH", ".") + "/cc.log"; int r = system(("( " + c + " ) > " + log + " 2>&1 < /dev/null").c_str()); if (err) *err = slurp(log).substr(0, 1500); return WIFEXITED(r) ? WEXITSTATUS(r) : 128 + WTERMSIG(r); }
static std::string strip_comments(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) if (s.compare(i, 2, "/*") == 0) { i = s.find("*/", i); if (i == std::string::npos) break; i++; } else o += s[i]; return o; }
struct Conf { bool ok = false; std::string dir, cfg; };
static std::map<std::string, Conf> g_conf; static std::string g_stage, g_base;
static bool stage() {
  if (!g_stage.empty()) return true;
  g_base = env("VF_SCRATCH", ".") + "/cg"; mkdir(g_base.c_str(), 0700); std::string err; int e = sh("python3 " + env("VF_VERIF", "/verif") + "/lib/embed.py " + g_base + "/stage", &err);
  if (e) { VIOL("stage", "the embedded sources listed by the build cannot be gathered: " + err); return false; } g_stage = g_base + "/stage"; return true;
}
// The embedded library for one set of options, compiled against the generated configuration header
static Conf* conf(const OSQPCodegenDefines& d, const std::string& gen) {
  std::string key = strf("c%d%d%d", (int)d.embedded_mode, (int)d.float_type, (int)d.printing_enable), cfg = strip_comments(slurp(gen + "osqp_configure.h"));
  auto it = g_conf.find(key); if (it != g_conf.end()) { CHECK(it->second.cfg == cfg, "configure_differs", "the same options gave another configuration header"); return it->second.ok ? &it->second : nullptr; }
  Conf& c = g_conf[key]; c.dir = g_base + "/" + key; c.cfg = cfg; mkdir(c.dir.c_str(), 0700); std::string err;
  int e = sh("set -e; cp " + gen + "osqp_configure.h " + c.dir + "/; cd " + c.dir + "; gcc -c -O1 -g -fPIC -Werror=overflow -Werror=implicit-function-declaration -Werror=int-conversion -Werror=incompatible-pointer-types" SANFLAGS " -I. -I" + g_stage + "/inc " + g_stage + "/src/*.c", &err);
  CHECK(!e, "library_does_not_compile", "embedded mode %d float %d printing %d: %s", (int)d.embedded_mode, (int)d.float_type, (int)d.printing_enable, err.c_str()); c.ok = !e; EV("embedded_libraries_compiled"); return c.ok ? &c : nullptr;
}
struct Emb {
  void* h = nullptr; int n, m; ~Emb() { if (h) dlclose(h); }
  template <class T> T fn(const char* k) { return (T)dlsym(h, k); }
  static std::vector<double> d(const VF& v) { return std::vector<double>(v.begin(), v.end()); } static std::vector<int> iv(const VI& v) { return std::vector<int>(v.begin(), v.end()); }
  int apply(const Op& o) {
    auto p = [](bool have, const std::vector<double>& v) -> const double* { static double z; return have ? (v.empty() ? &z : v.data()) : nullptr; }; auto q = [](bool have, const std::vector<int>& v) -> const int* { static int z; return have ? (v.empty() ? &z : v.data()) : nullptr; };
    switch (o.k) {
      case SOLVE: return fn<int (*)()>("vf_solve")();
      case VEC: return fn<int (*)(const double*, const double*, const double*, int, int)>("vf_vec")(p(o.hq, d(o.q)), p(o.hl, d(o.l)), p(o.hu, d(o.u)), n, m);
      case MAT: return fn<int (*)(const double*, const int*, int, int, const double*, const int*, int, int)>("vf_mat")(p(o.hP, d(o.px)), q(o.pidx, iv(o.pi)), (int)o.pn, (int)o.px.size(), p(o.hA, d(o.ax)), q(o.aidx, iv(o.ai)), (int)o.an, (int)o.ax.size());
      case RHO: return fn<int (*)(double)>("vf_rho")(o.rho);
      case WARM: return fn<int (*)(const double*, const double*, int, int)>("vf_warm")(p(o.hx, d(o.x)), p(o.hy, d(o.y)), n, m);
      case COLD: fn<void (*)()>("vf_cold")(); return 0;
      case SETT: { int a[5] = {(int)o.st.warm_starting, (int)o.st.max_iter, (int)o.st.scaled_termination, (int)o.st.check_termination, (int)o.st.check_dualgap}; double b[5] = {o.st.alpha, o.st.eps_abs, o.st.eps_rel, o.st.eps_prim_inf, o.st.eps_dual_inf}; return fn<int (*)(const int*, const double*)>("vf_set")(a, b); }
      default: return 0;
    }
  }
};
static int btype(F l, F u) { return l < -INF * OSQP_MIN_SCALING && u > INF * OSQP_MIN_SCALING ? -1 : u - l < OSQP_RHO_TOL ? 1 : 0; }
static int btypes_key(const Prob& p, std::string& s) { s.clear(); for (I i = 0; i < p.m; i++) s += (char)('b' + btype(p.l[i], p.u[i])); return 0; }
static bool near_sol(const std::vector<double>& a, const VF& b, double tol, double* worst) { double s = 0; for (auto v : b) s = std::max(s, std::fabs((double)v)); *worst = 0; for (size_t i = 0; i < b.size(); i++) { double x = a[i], y = b[i]; if (std::isnan(x) || std::isnan(y)) { if (std::isnan(x) != std::isnan(y)) { *worst = INFINITY; return false; } continue; } *worst = std::max(*worst, std::fabs(x - y) / (s > 0 ? s : 1)); } return *worst <= tol; }
static const char* PFXS[] = {"w_", "", "my_problem_", "Q1", "a_rather_long_prefix_used_for_a_controller_", "__x", "mpc2_"};
PROPERTY(P32) {
  if (!stage()) return; std::string err;
  static long serial = 0; std::string dir = g_base + strf("/k%ld/", serial++); mkdir(dir.c_str(), 0700); struct RM { std::string d; ~RM() { sh("rm -rf '" + d + "'", nullptr); } } rm{dir};
  OSQPCodegenDefines d; osqp_set_default_codegen_defines(&d); d.embedded_mode = r.irange(1, 2); d.float_type = r.chance(0.2); d.printing_enable = !d.float_type && r.chance(0.25);
  // the solver the code is generated from, with some history
  GenOpt go; go.nmax = 9; go.mmax = 12; go.big = 0; Model m; m.pb = d.float_type ? gen_strict(r, go) : r.chance(0.06) ? gen_noncvx(r, go) : r.chance(0.8) ? gen_any(r, go) : r.chance(0.5) ? gen_pinf(r, go) : gen_dinf(r, go); if (m.pb.kind == K_NONCVX) { EV("non_convex_inputs"); }
  bool tiny = !d.float_type && r.chance(0.2); double sc = 1;
  if (tiny) { sc = std::exp2((double)-r.irange(20, 60)); int w = r.irange(1, 3); if (w & 1) { for (auto& e : m.pb.q) e = (F)(e * sc); for (auto& e : m.pb.P.x) e = (F)(e * sc); m.pb.hasopt = false; } if (w & 2) { for (auto& e : m.pb.A.x) e = (F)(e * sc); for (auto& e : m.pb.l) if (e > -INF) e = (F)(e * sc); for (auto& e : m.pb.u) if (e < INF) e = (F)(e * sc); } }
  m.st = rand_settings(r, true); m.st.time_limit = (F)1e10; m.st.polishing = r.chance(0.2); m.st.warm_starting = r.chance(0.75); if (d.embedded_mode == 1 && r.chance(0.8)) m.st.adaptive_rho = 0; if (tiny && r.chance(0.7)) { m.st.scaling = 0; F e = (F)r.logu(1e-14, 1e-9); m.st.eps_abs = e; m.st.eps_rel = e; }
  if (d.float_type) { m.st.eps_abs = m.st.eps_rel = (F)1e-3; m.st.max_iter = 4000; m.st.check_dualgap = 0; m.st.rho = (F)0.1; m.st.scaled_termination = 0; if (!m.st.check_termination) m.st.check_termination = 25; }
  Solver S; S.setup(m.pb, m.st); std::string pfx = PFXS[r.irange(0, 6)];
  if (S.flag) { if (S.s) { I e = osqp_codegen(S.s, dir.c_str(), pfx.c_str(), &d); CHECK(e != 0, "codegen_of_failed_setup", "code was generated from a solver whose setup returned %d", (int)S.flag); EV("refused_after_failed_setup"); } return; }
  int pre = r.irange(0, 4); std::vector<Op> ops; bool dead = false;
  for (int k = 0; k < pre && !dead; k++) { Op o = gen_op(r, m, M_SOLVE | (d.float_type ? 0 : M_VEC | M_MAT | M_RHO) | M_WARM | M_COLD); I e = op_apply(S, o); if (o.k == MAT && e) dead = true; if (e && o.k == VEC) { ops.push_back(o); continue; } ops.push_back(o); model_apply(m, o); }
  if (dead) { INCONC("matrix update refused"); return; }
  G.note = strf("mode %d float %d print %d prefix '%s' ", (int)d.embedded_mode, (int)d.float_type, (int)d.printing_enable, pfx.c_str()) + prob_str(m.pb) + " " + settings_str(m.st) + " before: " + ops_str(ops);
  SIG(strf("%d%d%d %d %d %s", (int)d.embedded_mode, (int)d.float_type, (int)d.printing_enable, (int)m.pb.n, (int)m.pb.m, ops_str(ops).c_str()));
  Snap before = snap(S, 0); I e = osqp_codegen(S.s, dir.c_str(), pfx.c_str(), &d);
  if (S.status() == OSQP_NON_CVX) { CHECK(e != 0, "non_convex_generated", "code was generated for a problem reported non-convex"); EV("refused_non_convex"); return; }
  CHECK(e == 0, "codegen", "osqp_codegen returned %d", (int)e); if (e) return; EV("generated");
  { std::string df = snap_diff(before, snap(S, 0)); CHECK(df.empty(), "codegen_changes_solver", "%s", df.c_str()); }
  if (r.chance(0.15)) {   // generating twice gives the same program
    std::string d2 = dir + "again/"; mkdir(d2.c_str(), 0700); I e2 = osqp_codegen(S.s, d2.c_str(), pfx.c_str(), &d); std::string f = pfx + "workspace.c"; CHECK(!e2 && strip_comments(slurp(dir + f)) == strip_comments(slurp(d2 + f)), "codegen_not_repeatable", "a second call returned %d or wrote something else", (int)e2); EV("repeated_generation");
  }
  if (r.chance(0.1)) {   // no room on the device: an incomplete program must not be reported as success
    std::string d2 = dir + "full/"; mkdir(d2.c_str(), 0700); const char* fs[] = {"workspace.c", "workspace.h", "emosqp.c", "osqp_configure.h"}; int w = r.irange(0, 3); std::string f = d2 + (w < 2 ? pfx : std::string()) + fs[w];
    if (!symlink("/dev/full", f.c_str())) { I e2 = osqp_codegen(S.s, d2.c_str(), pfx.c_str(), &d); CHECK(e2 != 0, "write_failure_ignored", "%s could not be written but osqp_codegen returned 0", fs[w]); EV("write_failures"); }
    I e3 = osqp_codegen(S.s, (dir + "absent/").c_str(), pfx.c_str(), &d); CHECK(e3 == OSQP_FOPEN_ERROR, "missing_directory", "returned %d for a directory that does not exist", (int)e3);
  }
  if (r.chance(0.1)) {   // prefixes and directories of any length either work or are refused
    int len = r.irange(60, 400); std::string lp(len, 'p'), ld = dir; if (r.chance(0.5)) { lp = pfx; int k = r.irange(200, 2000); while ((int)ld.size() < k) ld += "./"; } I e2 = osqp_codegen(S.s, ld.c_str(), lp.c_str(), &d); EV(e2 ? "long_names_refused" : "long_names_accepted"); if (!e2) CHECK(slurp(ld + lp + "workspace.c").size() > 0 || ld.size() > 1000, "long_names", "success reported without a file for a prefix of %d and a directory of %d characters", (int)lp.size(), (int)ld.size());
  }
  Conf* c = conf(d, dir); if (!c) return;
  std::string w = dir + pfx + "workspace.c", so = dir + "gen.so";
  int ce = sh("cd " + dir + " && gcc -c -O1 -g -fPIC -Werror=overflow -Werror=int-conversion -Werror=incompatible-pointer-types" SANFLAGS " -I" + c->dir + " -I" + g_stage + "/inc " + w + " -o ws.o && gcc -c -O1 -g -fPIC -w" SANFLAGS " -DPFX=" + pfx + " '-DHDR=\"" + pfx + "workspace.h\"' -I. -I" + c->dir + " -I" + g_stage + "/inc " + env("VF_VERIF", "/verif") + "/harness/emb_drv.c -o drv.o && gcc -shared" SANFLAGS " -Wl,-Bsymbolic -Wl,-z,defs -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free ws.o drv.o " + c->dir + "/*.o -lm -ldl -o gen.so", &err);
  CHECK(!ce, "generated_code_does_not_compile", "%s", err.c_str()); if (ce) return; EV("programs_compiled");
  if (r.chance(0.08)) { int xe = sh("cd " + dir + " && gcc -O1 -w" SANFLAGS " -I" + c->dir + " -I. -I" + g_stage + "/inc emosqp.c ws.o " + c->dir + "/*.o -lm -o ex && ./ex", &err); bool ok = !xe && err.find("no error") != std::string::npos; CHECK(ok, "example_program", "exit %d: %s", xe, err.c_str()); EV("example_programs_run"); int he = sh("cd " + dir + " && g++ -fsyntax-only -x c++ -I" + c->dir + " -I" + g_stage + "/inc " + pfx + "workspace.h", &err); CHECK(!he, "header_in_cpp", "%s", err.c_str()); }
  Emb E; E.h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); CHECK(E.h, "load", "%s", dlerror()); if (!E.h) return;
  int dm[5]; E.fn<void (*)(int*)>("vf_dims")(dm); E.n = (int)m.pb.n; E.m = (int)m.pb.m; CHECK(dm[0] == m.pb.m && dm[1] == m.pb.n && dm[2] == (d.float_type ? 4 : 8), "dimensions", "generated solver has m=%d n=%d and %d-byte numbers", dm[0], dm[1], dm[2]);
  CHECK(!!(dm[4] & OSQP_CAPABILITY_UPDATE_MATRICES) == (d.embedded_mode == 2), "capabilities", "mode %d reports capabilities %x", (int)d.embedded_mode, dm[4]);
  { auto st = E.fn<double (*)(int)>("vf_setting"); const OSQPSettings* t0 = S.s->settings; double t[] = {t0->rho, t0->sigma, t0->alpha, t0->eps_abs, t0->eps_rel, t0->eps_prim_inf, t0->eps_dual_inf, t0->adaptive_rho_tolerance, t0->adaptive_rho_fraction, t0->time_limit, t0->delta, t0->cg_tol_fraction,
      (double)t0->max_iter, (double)t0->scaling, (double)t0->warm_starting, (double)t0->check_termination, (double)t0->adaptive_rho_interval, (double)t0->rho_is_vec, (double)t0->scaled_termination, (double)t0->check_dualgap, (double)t0->polish_refine_iter, (double)t0->cg_max_iter, (double)t0->cg_tol_reduction, (double)t0->cg_precond, (double)t0->adaptive_rho, (double)t0->linsys_solver};
    for (int k = 0; k < (int)(sizeof t / sizeof *t); k++) { double v = st(k); bool ok = d.float_type ? std::fabs(v - t[k]) <= 1e-6 * std::fabs(t[k]) : std::fabs(v - t[k]) <= 1e-15 * std::fabs(t[k]); CHECK(ok, "setting", "setting %d is %.17g in the solver and %.17g in the generated one", k, t[k], v); } }
  // what the generated solver does not do is switched off in the original, then both see the same calls
  if (S.s->settings->polishing) { OSQPSettings t = *S.s->settings; t.polishing = 0; osqp_update_settings(S.s, &t); m.st.polishing = 0; }
  bool strict = !d.float_type && !(d.embedded_mode == 1 && m.st.adaptive_rho); std::string bt0, bt1; btypes_key(m.pb, bt0); std::vector<Op> seq; int len = r.irange(1, 6); I ru = S.s->info->rho_updates; double rug = 0;
  for (int k = 0; k <= len; k++) {
    Op o = k == len || k == 0 ? op_solve() : gen_op(r, m, M_SOLVE | M_VEC | M_WARM | M_COLD | M_SET | (d.embedded_mode == 2 ? M_MAT | M_RHO : 0)); if (o.k == SETT) { o.st.polishing = 0; o.st.verbose = 0; o.st.time_limit = m.st.time_limit; if (d.float_type) { o.st.eps_abs = o.st.eps_rel = (F)1e-3; o.st.check_dualgap = 0; o.st.scaled_termination = 0; o.st.max_iter = 4000; if (!o.st.check_termination) o.st.check_termination = 10; } }
    if (d.float_type && o.k == MAT) continue;
    seq.push_back(o); Model nm = m; I f = op_apply(S, o); int g = E.apply(o); EV((std::string("op_") + op_str(o).substr(0, 3)).c_str()); if (d.float_type && o.k == VEC && f != g) { INCONC("bounds equal in single precision"); return; }
    CHECK(f == g, "flag", "%s: the solver returned %d, the generated one %d; after %s", op_str(o).c_str(), (int)f, g, ops_str(seq).c_str()); if (f != g) return;
    if (f) { if (o.k == MAT) return; continue; } model_apply(nm, o); m = nm; btypes_key(m.pb, bt1); if (bt1 != bt0 && d.embedded_mode == 1 && m.st.rho_is_vec) strict = false;
    if (o.k != SOLVE) continue; 
    std::vector<double> x(E.n + 1), y(E.m + 1), pc(E.m + 1), dc(E.n + 1), inf(9); bool own = r.chance(0.3); int ge = E.fn<int (*)(double*, double*, double*, double*, double*, int)>("vf_get")(x.data(), y.data(), pc.data(), dc.data(), inf.data(), own); CHECK(!ge, "get_solution", "returned %d", ge);
    if (strict) {
      EV("twin_solves"); bool ok = inf[0] == (double)S.status() && inf[1] == (double)S.s->info->iter && (inf[7] - rug == (double)(S.s->info->rho_updates - ru) || inf[7] == (double)S.s->info->rho_updates);
      CHECK(ok, "outcome_differs", "solver: status %d iterations %d rho updates %d; generated: %g %g %g; after %s", (int)S.status(), (int)S.s->info->iter, (int)(S.s->info->rho_updates - ru), inf[0], inf[1], inf[7] - rug, ops_str(seq).c_str()); if (!ok) return; ru = S.s->info->rho_updates; rug = inf[7];
      EV(strf("status_%d", (int)inf[0]).c_str()); CHECK(std::string(E.fn<const char* (*)()>("vf_status")()) == S.s->info->status, "status_text", "generated: '%s'", E.fn<const char* (*)()>("vf_status")());
      double wx, wy; bool s1 = near_sol(x, S.x(), 1e-9, &wx), s2 = near_sol(y, S.y(), 1e-9, &wy); EV(std::max(wx, wy) == 0 ? "bitwise_equal" : "rounding_differences");   // certificates are not normalised, hence not stored, in embedded code
      CHECK(s1 && s2, "solution_differs", "relative differences x %.2g y %.2g; status %d after %s", wx, wy, (int)S.status(), ops_str(seq).c_str());
      double a[6] = {S.s->info->obj_val, S.s->info->prim_res, S.s->info->dual_res, S.s->info->dual_obj_val, S.s->info->duality_gap, S.s->info->rho_estimate}, b[6] = {inf[2], inf[3], inf[4], inf[5], inf[6], inf[8]}; for (int t = 0; t < (d.embedded_mode == 2 ? 6 : 5); t++) if (std::isfinite(a[t]) || std::isfinite(b[t])) CHECK(std::fabs(a[t] - b[t]) <= 1e-7 * (std::fabs(a[t]) + std::fabs(a[0]) * (t == 4)) + 1e-12, "info_differs", "information entry %d is %.12g and %.12g in the generated solver", t, a[t], b[t]);
    } else if (inf[0] == OSQP_SOLVED) {
      EV("outcome_solves"); VF xx(x.begin(), x.begin() + E.n), yy(y.begin(), y.begin() + E.m); Resid q = residuals(m.pb, xx, yy); L ea = m.st.eps_abs, er = m.st.eps_rel, sl = d.float_type ? 1e-4L : 1e-8L; L nz = q.nAx; if (m.st.scaled_termination) continue;
      L tp = ea + er * nz, td = ea + er * std::max(std::max(q.nPx, q.nAty), q.nq); CHECK(q.viol <= tp * 1.05L + sl * (1 + q.eAx) && q.dual <= td * 1.05L + sl * (1 + q.eD), "inaccurate_solution", "reported solved with violation %.3Lg (allowed %.3Lg) and stationarity %.3Lg (allowed %.3Lg); after %s", q.viol, tp, q.dual, td, ops_str(seq).c_str());
      if (S.status() == OSQP_PRIMAL_INFEASIBLE || S.status() == OSQP_DUAL_INFEASIBLE) EV("loose_contradictions");
    } else if (d.float_type && m.pb.kind == K_SOLVABLE && S.status() == OSQP_SOLVED) { EV("single_precision_unsolved"); CHECK(inf[0] != OSQP_PRIMAL_INFEASIBLE && inf[0] != OSQP_DUAL_INFEASIBLE && inf[0] != OSQP_NON_CVX, "wrong_verdict", "a solvable problem gets status %g in the generated solver", inf[0]); }
    else EV("outcome_not_solved");
  }
  CHECK(*E.fn<int*>("vf_heap_calls") == 0, "heap_use", "the generated solver made %d heap calls", *E.fn<int*>("vf_heap_calls"));
}
#else
PROPERTY(P32) { INCONC("code generation not built"); }
#endif
