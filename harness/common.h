// Shared pieces of the monitoring harness: PRNG, problems, long-double oracles, reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <memory>
#include "osqp.h"
#include "vf_memory.h"
#undef c_malloc
#undef c_calloc
#undef c_realloc
#undef c_free

typedef OSQPFloat F;
typedef OSQPInt I;
typedef long double L;
typedef std::vector<F> VF;
typedef std::vector<I> VI;
typedef std::vector<L> VL;

static const F INF = OSQP_INFTY;
static const L INF_THR = (L)OSQP_INFTY * (L)OSQP_MIN_SCALING;   // bounds beyond this mean "no bound"

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u01() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  int irange(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }   // inclusive
  bool chance(double p) { return u01() < p; }
  double gauss() { double u = u01(), v = u01(); if (u < 1e-300) u = 1e-300; return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};
inline uint64_t hash3(uint64_t a, uint64_t b, uint64_t c) { Rng r(a * 0x9E3779B97F4A7C15ull + 0x1234567); r.s ^= r.next() + b * 0xD6E8FEB86659FD93ull; r.s ^= r.next() + c * 0xA0761D6478BD642Full; return r.next(); }

// ---------------------------------------------------------------- sparse matrix owned by the harness
struct Csc {
  I m = 0, n = 0; VI p, i; VF x;
  I nnz() const { return p.empty() ? 0 : p.back(); }
};
// Non-owning view handed to the library
struct CscView {
  OSQPCscMatrix M; F dx; I di;
  CscView(Csc& c) { M.m = c.m; M.n = c.n; M.p = c.p.data(); M.nzmax = c.nnz(); M.nz = -1; M.owned = 0;
    M.i = c.i.empty() ? &di : c.i.data(); M.x = c.x.empty() ? &dx : c.x.data(); }
};
typedef std::vector<std::vector<double>> Dense;   // row major [m][n]
inline Csc csc_from_dense(const Dense& D, I m, I n, bool triu, const std::vector<std::vector<char>>* keep = nullptr) {
  Csc c; c.m = m; c.n = n; c.p.assign(n + 1, 0);
  for (I j = 0; j < n; j++) {
    for (I i = 0; i < (triu ? std::min<I>(j + 1, m) : m); i++)
      if (D[i][j] != 0 || (keep && (*keep)[i][j])) { c.i.push_back(i); c.x.push_back((F)D[i][j]); }
    c.p[j + 1] = (I)c.i.size();
  }
  return c;
}

enum Kind { K_UNKNOWN, K_SOLVABLE, K_PINF, K_DINF, K_NONCVX };
struct Prob {
  I n = 0, m = 0; Csc P, A; VF q, l, u;
  Kind kind = K_UNKNOWN; std::string fam;
  VF xs, ys;            // known optimal pair, if any
  bool hasopt = false, strict = false;
  VF w;                 // Farkas / recession direction, if any
};

// ---------------------------------------------------------------- oracle arithmetic (long double)
inline VL mulA(const Csc& A, const VF& x) { VL r(A.m, 0); for (I j = 0; j < A.n; j++) for (I k = A.p[j]; k < A.p[j+1]; k++) r[A.i[k]] += (L)A.x[k] * x[j]; return r; }
inline VL mulAt(const Csc& A, const VF& y) { VL r(A.n, 0); for (I j = 0; j < A.n; j++) for (I k = A.p[j]; k < A.p[j+1]; k++) r[j] += (L)A.x[k] * y[A.i[k]]; return r; }
inline VL mulP(const Csc& P, const VF& x) { VL r(P.n, 0); for (I j = 0; j < P.n; j++) for (I k = P.p[j]; k < P.p[j+1]; k++) { I i = P.i[k]; r[i] += (L)P.x[k] * x[j]; if (i != j) r[j] += (L)P.x[k] * x[i]; } return r; }
// sums of absolute values: bound on rounding of the corresponding product
inline VL absA(const Csc& A, const VF& x) { VL r(A.m, 0); for (I j = 0; j < A.n; j++) for (I k = A.p[j]; k < A.p[j+1]; k++) r[A.i[k]] += fabsl((L)A.x[k] * x[j]); return r; }
inline VL absAt(const Csc& A, const VF& y) { VL r(A.n, 0); for (I j = 0; j < A.n; j++) for (I k = A.p[j]; k < A.p[j+1]; k++) r[j] += fabsl((L)A.x[k] * y[A.i[k]]); return r; }
inline VL absP(const Csc& P, const VF& x) { VL r(P.n, 0); for (I j = 0; j < P.n; j++) for (I k = P.p[j]; k < P.p[j+1]; k++) { I i = P.i[k]; L t = fabsl((L)P.x[k]); r[i] += t * fabsl((L)x[j]); if (i != j) r[j] += t * fabsl((L)x[i]); } return r; }
template <class V> inline L ninf(const V& v) { L r = 0; for (auto e : v) { L a = fabsl((L)e); if (!(a <= r)) r = a; } return r; }
template <class V, class W> inline L dotl(const V& a, const W& b) { L r = 0; for (size_t i = 0; i < a.size(); i++) r += (L)a[i] * (L)b[i]; return r; }
template <class V, class W> inline L dotabs(const V& a, const W& b) { L r = 0; for (size_t i = 0; i < a.size(); i++) r += fabsl((L)a[i] * (L)b[i]); return r; }
template <class V> inline bool allfinite(const V& v) { for (auto e : v) if (!std::isfinite((double)e)) return false; return true; }

struct Resid {
  VL Ax, Px, Aty; VL dres; L viol = 0, dual = 0, xPx = 0, qx = 0, SC = 0, obj = 0, dobj = 0, gap = 0;
  L nAx = 0, nPx = 0, nAty = 0, nq = 0;
  L eAx = 0, eD = 0, eO = 0;     // rounding-error magnitudes (sums of absolute values)
  bool dual_unbounded = false;
};
// Residuals of (x,y) for the caller's own data. Dual components pointing at absent bounds are
// dropped in the support function (as documented: y is projected on the polar recession cone).
inline Resid residuals(const Prob& pb, const VF& x, const VF& y) {
  Resid r; r.Ax = mulA(pb.A, x); r.Px = mulP(pb.P, x); r.Aty = mulAt(pb.A, y);
  VL a1 = absA(pb.A, x), a2 = absP(pb.P, x), a3 = absAt(pb.A, y);
  r.eAx = ninf(a1);
  for (I i = 0; i < pb.m; i++) { L v = 0; if (r.Ax[i] < pb.l[i]) v = pb.l[i] - r.Ax[i]; if (r.Ax[i] > pb.u[i]) v = r.Ax[i] - pb.u[i]; if (!(v <= r.viol)) r.viol = v; }
  r.dres.resize(pb.n);
  for (I j = 0; j < pb.n; j++) { r.dres[j] = r.Px[j] + pb.q[j] + r.Aty[j]; L t = a2[j] + a3[j] + fabsl((L)pb.q[j]); if (t > r.eD) r.eD = t; }
  r.dual = ninf(r.dres); r.nAx = ninf(r.Ax); r.nPx = ninf(r.Px); r.nAty = ninf(r.Aty); r.nq = ninf(pb.q);
  r.xPx = dotl(x, r.Px); r.qx = dotl(pb.q, x);
  L sa = 0;
  for (I i = 0; i < pb.m; i++) {
    L yi = y[i];
    if (yi > 0) { if (pb.u[i] < INF_THR) { r.SC += yi * pb.u[i]; sa += fabsl(yi * pb.u[i]); } else r.dual_unbounded = true; }
    else if (yi < 0) { if (pb.l[i] > -INF_THR) { r.SC += yi * pb.l[i]; sa += fabsl(yi * pb.l[i]); } else r.dual_unbounded = true; }
  }
  L xa = 0; for (I j = 0; j < pb.n; j++) xa += fabsl((L)x[j]) * a2[j];
  r.eO = xa + dotabs(pb.q, x) + sa;
  r.obj = 0.5L * r.xPx + r.qx; r.dobj = -0.5L * r.xPx - r.SC; r.gap = r.xPx + r.qx + r.SC;
  return r;
}

// ---------------------------------------------------------------- reporting
struct Ctx {
  std::string prop, variant; uint64_t seed = 1; long cas = 0; int tier = 0; bool verbose = false;
  FILE* out = nullptr;
  std::map<std::string, long> ev; std::unordered_set<uint64_t> sigs; std::vector<std::string> samples;
  long nviol = 0;
  Rng rng{1};
  std::string note;    // description of the current case
};
extern Ctx G;
inline std::string strf(const char* fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
inline std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
inline void EV(const char* name, long k = 1) { G.ev[name] += k; }
inline void SIG(const std::string& s) { G.sigs.insert(std::hash<std::string>()(s)); }
inline void VIOL(const std::string& key, const std::string& msg) {
  if (++G.nviol > 200) return;
  fprintf(G.out, "V {\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\",\"note\":\"%s\"}\n", G.cas, jesc(key).c_str(), jesc(msg).c_str(), jesc(G.note).c_str());
  fflush(G.out);
}
inline void INCONC(const std::string& why) { G.ev["inconclusive:" + why]++; }
#define CHECK(cond, key, ...) do { EV("oracle_checks"); if (!(cond)) VIOL(key, strf(__VA_ARGS__)); } while (0)

// ---------------------------------------------------------------- property registration
typedef void (*PropFn)(Rng& r);
struct Reg { Reg(const char* name, PropFn f); };
std::map<std::string, PropFn>& registry();
#define PROPERTY(name) static void prop_##name(Rng& r); static Reg reg_##name(#name, prop_##name); static void prop_##name(Rng& r)

// ---------------------------------------------------------------- generators (gen.cpp)
struct GenOpt { int nmin = 1, nmax = 12, mmin = 0, mmax = 16; double big = 0.015; };   // big: share of problems with 15..70 variables and up to 110 rows
Prob gen_solvable(Rng& r, const GenOpt& o = GenOpt());      // known optimal pair by construction
Prob gen_strict(Rng& r, const GenOpt& o = GenOpt());        // strongly convex, well scaled, known optimum
Prob gen_pinf(Rng& r, const GenOpt& o = GenOpt());          // primal infeasible with margin
Prob gen_dinf(Rng& r, const GenOpt& o = GenOpt());          // unbounded below
Prob gen_noncvx(Rng& r, const GenOpt& o = GenOpt());
Prob gen_struct(Rng& r, int size = 0);                      // lasso, portfolio, MPC, SVM, huber, ...
Prob gen_any(Rng& r, const GenOpt& o = GenOpt());
OSQPSettings default_settings();                            // library defaults with printing off
OSQPSettings rand_settings(Rng& r, bool direct_only = false);
bool illcond(const Prob& p, const OSQPSettings& s, double rho = 0);   // 1/rho is below the rounding of AA'/sigma: factorizations may fail
std::string settings_str(const OSQPSettings& s);
std::string prob_str(const Prob& p);
std::string prob_dump(const Prob& p);

// ---------------------------------------------------------------- solver wrapper
struct Sol { VF x, y, pc, dc; };
struct Solver {
  OSQPSolver* s = nullptr; I flag = 0; I n = 0, m = 0;
  Solver() {}
  Solver(Prob& pb, const OSQPSettings& st) { setup(pb, st); }
  I setup(Prob& pb, const OSQPSettings& st) {
    n = pb.n; m = pb.m; CscView P(pb.P), A(pb.A); F d;
    flag = osqp_setup(&s, &P.M, pb.q.data(), &A.M, pb.l.empty() ? &d : pb.l.data(), pb.u.empty() ? &d : pb.u.data(), pb.m, pb.n, &st);
    return flag;
  }
  ~Solver() { free_(); }
  void free_() { if (s) osqp_cleanup(s); s = nullptr; }
  Solver(const Solver&) = delete; Solver& operator=(const Solver&) = delete;
  I solve() { return osqp_solve(s); }
  VF x() const { return VF(s->solution->x, s->solution->x + n); }
  VF y() const { return VF(s->solution->y, s->solution->y + m); }
  VF pc() const { return VF(s->solution->prim_inf_cert, s->solution->prim_inf_cert + m); }
  VF dc() const { return VF(s->solution->dual_inf_cert, s->solution->dual_inf_cert + n); }
  I status() const { return s->info->status_val; }
};
inline bool has_sol(I st) { return st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE || st == OSQP_MAX_ITER_REACHED || st == OSQP_TIME_LIMIT_REACHED || st == OSQP_SIGINT || st == OSQP_UNSOLVED; }
template <class V> inline bool biteq(const V& a, const V& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(a[0])) == 0); }
// Snapshot of everything a caller can observe except timing
struct Snap { VF x, y, pc, dc; OSQPInfo info; I flag = 0; bool ok = false; };
Snap snap(const Solver& S, I flag);
// empty string when equal; otherwise what differs. tol=0: bitwise.
std::string snap_diff(const Snap& a, const Snap& b, double tol = 0, bool ignore_pdint = false);
VF near(Rng& r, const VF& v, double s);
inline L eps_m() { return sizeof(F) == 4 ? 1.2e-7L : 2.3e-16L; }
// Full oracle for an outcome on caller data (P01..P04 combined). `what` selects oracle groups.
enum { O_OPT = 1, O_INFO = 2, O_PINF = 4, O_DINF = 8, O_ALL = 15 };
void oracle_outcome(const Prob& pb, const OSQPSettings& st, const Solver& S, const char* tag, int what = O_ALL);
