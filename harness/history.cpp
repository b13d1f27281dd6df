#include "history.h"
static void vec_bounds(Rng& r, const Prob& p, Op& o) {
  o.l = p.l; o.u = p.u; int mode = r.irange(0, 5);
  for (I i = 0; i < p.m; i++) {
    if (mode >= 1 && r.chance(0.5)) continue;
    int t = r.irange(0, 6); F c = (F)(r.gauss() * 2);
    if (fabsl((L)o.l[i]) < INF_THR && r.chance(0.6)) c = o.l[i]; else if (fabsl((L)o.u[i]) < INF_THR && r.chance(0.6)) c = o.u[i];
    if (t == 0) { o.l[i] = o.u[i] = c; }
    else if (t == 1) { o.l[i] = -INF; o.u[i] = INF; }
    else if (t == 2) { o.l[i] = -INF; o.u[i] = c; }
    else if (t == 3) { o.l[i] = c; o.u[i] = INF; }
    else { o.l[i] = (F)(c - r.uni(0.05, 2)); o.u[i] = (F)(c + r.uni(0.05, 2)); }
  }
  int which = r.irange(0, 3);
  if (which == 0) { o.hl = o.hu = true; }
  else if (which == 1) { o.hl = true; o.u = p.u; for (I i = 0; i < p.m; i++) if (o.l[i] > o.u[i]) o.l[i] = o.u[i]; }
  else if (which == 2) { o.hu = true; o.l = p.l; for (I i = 0; i < p.m; i++) if (o.u[i] < o.l[i]) o.u[i] = o.l[i]; }
  else { o.hl = o.hu = true; }
}
static void shuffle(Rng& r, VI& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.next() % i]); }
// new values for P that keep it positive semidefinite
static void mat_P(Rng& r, const Prob& p, Op& o) {
  I nz = p.P.nnz(); if (nz == 0) return;
  VF x = p.P.x; std::vector<char> touched(nz, 0);
  VI col(nz); for (I j = 0; j < p.n; j++) for (I k = p.P.p[j]; k < p.P.p[j + 1]; k++) col[k] = j;
  int mode = r.irange(0, 2);
  std::vector<char> inS(p.n, 0);
  if (mode <= 1) {
    for (I j = 0; j < p.n; j++) inS[j] = mode == 0 || r.chance(0.4);
    VF d(p.n, 1); for (I j = 0; j < p.n; j++) if (inS[j]) d[j] = r.chance(0.05) ? 0 : (F)r.uni(0.4, 1.8);
    for (I k = 0; k < nz; k++) { I i = p.P.i[k], j = col[k]; if (inS[i] || inS[j]) { x[k] = (F)(x[k] * d[i] * d[j]); touched[k] = 1; } }
  }
  if (mode != 0) for (I k = 0; k < nz; k++) if (p.P.i[k] == col[k] && r.chance(0.5)) { x[k] = (F)(x[k] + r.uni(0, 2)); touched[k] = 1; }
  VI idx; for (I k = 0; k < nz; k++) if (touched[k]) idx.push_back(k);
  if (idx.empty()) return;
  o.hP = true;
  int how = r.irange(0, 3);
  if (how == 0) { o.px = x; o.pn = r.chance(0.5) ? nz : 0; }                    // all values, no index
  else { if (how == 1) { idx.clear(); for (I k = 0; k < nz; k++) idx.push_back(k); }
    if (r.chance(0.8)) shuffle(r, idx);
    o.pidx = true; o.pi = idx; o.pn = (I)idx.size(); for (I k : idx) o.px.push_back(x[k]); }
}
static void mat_A(Rng& r, const Prob& p, Op& o) {
  I nz = p.A.nnz(); if (nz == 0) return;
  VF x = p.A.x; VI idx; double dens = r.pick(std::vector<double>{1, 0.5, 0.15});
  for (I k = 0; k < nz; k++) if (r.chance(dens)) { idx.push_back(k); x[k] = r.chance(0.05) ? 0 : (F)(r.chance(0.5) ? x[k] * r.uni(0.5, 1.5) : r.gauss()); }
  if (idx.empty()) return;
  o.hA = true; int how = r.irange(0, 2);
  if (how == 0) { o.ax = x; o.an = r.chance(0.5) ? nz : 0; }
  else { if (r.chance(0.8)) shuffle(r, idx); o.aidx = true; o.ai = idx; o.an = (I)idx.size(); for (I k : idx) o.ax.push_back(x[k]); }
}
Op gen_op(Rng& r, const Model& m, int mask) {
  std::vector<int> ks; int w[8] = {3, 3, 3, 1, 1, 2, 1, 1};
  for (int k = 0; k < 8; k++) if (mask >> k & 1) for (int t = 0; t < w[k]; t++) ks.push_back(k);
  Op o; o.k = (OpK)r.pick(ks); const Prob& p = m.pb; o.st = m.st;
  switch (o.k) {
    case VEC:
      if (r.chance(0.5) || p.m == 0) { o.hq = true; o.q = r.chance(0.5) ? near(r, p.q, 0.3) : VF(p.n); if (r.chance(0.5)) for (auto& e : o.q) e = (F)r.gauss(); }
      if (p.m && (!o.hq || r.chance(0.6))) vec_bounds(r, p, o);
      break;
    case MAT: { bool wp = r.chance(0.65), wa = !wp || r.chance(0.5); if (wp) mat_P(r, p, o); if (wa) mat_A(r, p, o); break; }
    case RHO: o.rho = (F)(r.chance(0.1) ? r.pick(std::vector<double>{1e-9, 1e9}) : r.logu(1e-3, 1e2)); break;
    case SETT: { OSQPSettings n = rand_settings(r, true);
      if (m.st.linsys_solver != OSQP_DIRECT_SOLVER) { n.cg_precond = r.chance(0.5) ? OSQP_DIAGONAL_PRECONDITIONER : OSQP_NO_PRECONDITIONER; n.cg_max_iter = r.pick(VI{10, 20, 50, 200}); n.cg_tol_fraction = (F)r.uni(0.05, 0.5); n.cg_tol_reduction = r.irange(1, 12); }
      o.st = merge_settings(m.st, n); break; }
    case WARM: o.hx = r.chance(0.7); o.hy = p.m > 0 && (!o.hx || r.chance(0.6)); if (!o.hx && !o.hy) o.hx = true;
      if (o.hx) { o.x.resize(p.n); for (auto& e : o.x) e = (F)(r.gauss() * 2); }
      if (o.hy) { o.y.resize(p.m); for (auto& e : o.y) e = (F)r.gauss(); } break;
    default: break;
  }
  if (o.k == MAT && !o.hP && !o.hA) o.k = mask & M_VEC ? VEC : SOLVE;
  if (o.k == VEC && !o.hq && !o.hl && !o.hu) { o.hq = true; o.q = p.q; }
  return o;
}
Op op_rho(F rho) { Op o; o.k = RHO; o.rho = rho; return o; }
Op op_cold() { Op o; o.k = COLD; return o; }
Op op_solve() { Op o; o.k = SOLVE; return o; }
Op op_set(const OSQPSettings& st) { Op o; o.k = SETT; o.st = st; return o; }
Op op_vec_all(const Prob& pb) { Op o; o.k = VEC; o.hq = true; o.q = pb.q; o.hl = o.hu = pb.m > 0; o.l = pb.l; o.u = pb.u; return o; }
Op op_mat_all(const Prob& pb) { Op o; o.k = MAT; o.hP = pb.P.nnz() > 0; o.px = pb.P.x; o.pn = pb.P.nnz(); o.hA = pb.A.nnz() > 0; o.ax = pb.A.x; o.an = pb.A.nnz(); return o; }
OSQPSettings merge_settings(const OSQPSettings& cur, const OSQPSettings& nw) {
  OSQPSettings s = cur;
  s.profiler_level = nw.profiler_level; s.verbose = nw.verbose; s.warm_starting = nw.warm_starting; s.polishing = nw.polishing; s.alpha = nw.alpha;
  s.cg_max_iter = nw.cg_max_iter; s.cg_tol_reduction = nw.cg_tol_reduction; s.cg_tol_fraction = nw.cg_tol_fraction; s.cg_precond = nw.cg_precond;
  s.max_iter = nw.max_iter; s.eps_abs = nw.eps_abs; s.eps_rel = nw.eps_rel; s.eps_prim_inf = nw.eps_prim_inf; s.eps_dual_inf = nw.eps_dual_inf;
  s.scaled_termination = nw.scaled_termination; s.check_termination = nw.check_termination; s.check_dualgap = nw.check_dualgap; s.time_limit = nw.time_limit;
  s.delta = nw.delta; s.polish_refine_iter = nw.polish_refine_iter;
  return s;
}
std::string settings_diff(const OSQPSettings& a, const OSQPSettings& b) {
#define FD(f) if (memcmp(&a.f, &b.f, sizeof a.f)) return strf(#f ": %.17g vs %.17g", (double)a.f, (double)b.f);
  FD(device) FD(linsys_solver) FD(allocate_solution) FD(verbose) FD(profiler_level) FD(warm_starting) FD(scaling) FD(polishing) FD(rho) FD(rho_is_vec) FD(sigma) FD(alpha)
  FD(cg_max_iter) FD(cg_tol_reduction) FD(cg_tol_fraction) FD(cg_precond) FD(adaptive_rho) FD(adaptive_rho_interval) FD(adaptive_rho_fraction) FD(adaptive_rho_tolerance)
  FD(max_iter) FD(eps_abs) FD(eps_rel) FD(eps_prim_inf) FD(eps_dual_inf) FD(scaled_termination) FD(check_termination) FD(check_dualgap) FD(time_limit) FD(delta) FD(polish_refine_iter)
#undef FD
  return "";
}
void model_apply(Model& m, const Op& o) {
  Prob& p = m.pb;
  if (o.k == VEC) { if (o.hq) p.q = o.q; if (o.hl) p.l = o.l; if (o.hu) p.u = o.u; p.kind = K_UNKNOWN; p.hasopt = false; }
  if (o.k == MAT) {
    if (o.hP) { if (o.pidx) for (size_t t = 0; t < o.pi.size(); t++) p.P.x[o.pi[t]] = o.px[t]; else p.P.x = o.px; }
    if (o.hA) { if (o.aidx) for (size_t t = 0; t < o.ai.size(); t++) p.A.x[o.ai[t]] = o.ax[t]; else p.A.x = o.ax; }
    p.kind = K_UNKNOWN; p.hasopt = false;
  }
  if (o.k == RHO) m.st.rho = o.rho;
  if (o.k == SETT) m.st = merge_settings(m.st, o.st);
  if (o.k == WARM) m.st.warm_starting = 1;
}
std::vector<Op> gen_ops(Rng& r, Model& m, int mask, int len) {
  std::vector<Op> v; for (int t = 0; t < len; t++) { v.push_back(gen_op(r, m, mask)); model_apply(m, v.back()); } return v;
}
std::string op_str(const Op& o) {
  static const char* N[] = {"solve", "vec", "mat", "rho", "set", "warm", "cold", "get"};
  std::string s = N[o.k];
  if (o.k == VEC) { s += ":"; if (o.hq) s += "q"; if (o.hl) s += "l"; if (o.hu) s += "u"; }
  if (o.k == MAT) s += strf(":%s%d%s%d", o.hP ? (o.pidx ? "Pi" : "P") : "-", (int)o.pn, o.hA ? (o.aidx ? "Ai" : "A") : "-", (int)o.an);
  if (o.k == RHO) s += strf(":%g", (double)o.rho);
  if (o.k == WARM) { s += ":"; if (o.hx) s += "x"; if (o.hy) s += "y"; }
  return s;
}
std::string ops_str(const std::vector<Op>& v) { std::string s; for (auto& o : v) s += op_str(o) + " "; return s; }
// A private copy of one argument, placed so that it can be compared and destroyed afterwards
template <class T> struct Guard {
  T* p = nullptr; std::vector<T> orig; const char* nm; bool on;
  Guard(const std::vector<T>& v, bool have, bool on, const char* nm) : orig(v), nm(nm), on(on) { if (!have) return; p = (T*)malloc(v.size() * sizeof(T) + 1); if (v.size()) memcpy(p, v.data(), v.size() * sizeof(T)); }
  ~Guard() { if (!p) return; if (on) { EV("argument_byte_checks"); if (orig.size() && memcmp(p, orig.data(), orig.size() * sizeof(T))) VIOL("argument_modified", strf("argument %s was modified", nm)); memset((void*)p, 0x7f, orig.size() * sizeof(T)); } free((void*)p); }
};
I op_apply(Solver& S, const Op& o, bool guard) {
  switch (o.k) {
    case SOLVE: return osqp_solve(S.s);
    case VEC: { Guard<F> q(o.q, o.hq, guard, "q"), l(o.l, o.hl, guard, "l"), u(o.u, o.hu, guard, "u"); return osqp_update_data_vec(S.s, q.p, l.p, u.p); }
    case MAT: { Guard<F> px(o.px, o.hP, guard, "Px"), ax(o.ax, o.hA, guard, "Ax"); Guard<I> pi(o.pi, o.pidx, guard, "Px_idx"), ai(o.ai, o.aidx, guard, "Ax_idx");
      return osqp_update_data_mat(S.s, px.p, pi.p, o.pn, ax.p, ai.p, o.an); }
    case RHO: return osqp_update_rho(S.s, o.rho);
    case SETT: { Guard<OSQPSettings> st(std::vector<OSQPSettings>(1, o.st), true, guard, "settings"); return osqp_update_settings(S.s, st.p); }
    case WARM: { Guard<F> x(o.x, o.hx, guard, "x"), y(o.y, o.hy, guard, "y"); return osqp_warm_start(S.s, x.p, y.p); }
    case COLD: osqp_cold_start(S.s); return 0;
    case GETS: return retrieve(S).flag;
    default: return 0;
  }
}
Got retrieve(Solver& S) {
  Got g; g.x.assign(S.n, (F)-77); g.y.assign(S.m, (F)-77); g.pc.assign(S.m, (F)-77); g.dc.assign(S.n, (F)-77);
  OSQPSolution sol; memset(&sol, 0, sizeof sol); F d; 
  sol.x = g.x.data(); sol.dual_inf_cert = g.dc.data(); sol.y = S.m ? g.y.data() : &d; sol.prim_inf_cert = S.m ? g.pc.data() : &d;
  g.flag = osqp_get_solution(S.s, &sol); return g;
}
std::string got_diff(const Got& a, const Got& b) {
  if (a.flag != b.flag) return "return code";
  if (!biteq(a.x, b.x)) return "x"; if (!biteq(a.y, b.y)) return "y"; if (!biteq(a.pc, b.pc)) return "prim_inf_cert"; if (!biteq(a.dc, b.dc)) return "dual_inf_cert";
  return "";
}
