// Vector and matrix kernels against their definitions in extended precision (P23).
#include "common.h"
#include "algebra_vector.h"
#include "algebra_matrix.h"
#include "csc_utils.h"
extern "C" OSQPInt osqp_algebra_init_libs(OSQPInt device);
#ifdef OSQP_ALGEBRA_MKL
enum { MKL_ = 1 };
#else
enum { MKL_ = 0 };
#endif
static const double BIG = sizeof(F) == 4 ? 1e8 : 1e20;
// ---------------------------------------------------------------- values
struct Vals { int mode; double lo, hi; };
static Vals rand_mode(Rng& r) { Vals v; v.mode = r.irange(0, 4); v.lo = 1 / BIG; v.hi = BIG; return v; }
static F val(Rng& r, const Vals& v) {
  if (v.mode == 0) return (F)r.gauss(); if (v.mode == 1) return (F)r.irange(-3, 3);
  if (r.chance(0.12)) return r.chance(0.5) ? (F)0.0 : (F)-0.0; double s = r.chance(0.5) ? 1 : -1;
  if (v.mode == 2) return (F)(s * r.logu(v.lo, v.hi)); if (v.mode == 3) return (F)(s * r.logu(1e-3, 1e3)); return (F)(s * r.irange(1, 4) * 0.5);
}
static VF vals(Rng& r, I n, const Vals& v) { VF x(n); for (auto& e : x) e = val(r, v); return x; }
static F scal(Rng& r, const Vals& v) { int k = r.irange(0, 5); return k == 0 ? (F)0 : k == 1 ? (F)1 : k == 2 ? (F)-1 : val(r, v); }
static F bound(Rng& r, const Vals& v, int side) { return r.chance(0.35) ? (F)(side * 1e30) : r.chance(0.05) ? (F)(side * 2e27) : r.chance(0.05) ? (F)(side * 5e25) : val(r, v); }
// ---------------------------------------------------------------- a library vector, owned or a view of a longer one, with its surroundings watched
struct LV {
  OSQPVectorf *base = nullptr, *v = nullptr; I n, head = 0, total; VF init; bool view;
  LV(Rng& r, const VF& x) : n((I)x.size()) {
    view = r.chance(0.4); head = view ? r.irange(0, 5) : 0; total = n + (view ? head + r.irange(0, 5) : 0); init.resize(total);
    for (auto& e : init) e = (F)r.gauss(); for (I i = 0; i < n; i++) init[head + i] = x[i]; F d;
    base = r.chance(0.7) ? OSQPVectorf_new(total ? init.data() : &d, total) : OSQPVectorf_malloc(total); if (total) OSQPVectorf_from_raw(base, init.data());
    if (!view) v = base; else if (r.chance(0.7)) v = OSQPVectorf_view(base, head, n); else { v = OSQPVectorf_view(base, 0, 0); OSQPVectorf_view_update(v, base, head, n); }
  }
  ~LV() { if (view) OSQPVectorf_view_free(v); OSQPVectorf_free(base); } LV(const LV&) = delete; LV& operator=(const LV&) = delete;
  operator OSQPVectorf*() { return v; }
  VF get(Rng& r) { VF o(n); if (r.chance(0.5)) { if (n) OSQPVectorf_to_raw(o.data(), v); } else { const F* p = OSQPVectorf_data(v); for (I i = 0; i < n; i++) o[i] = p[i]; } return o; }
  // nothing outside the view may change
  void surroundings(const char* op) { if (OSQPVectorf_length(v) != n || OSQPVectorf_length(base) != total) { CHECK(false, strf("length:%s", op), "length changed"); return; } const F* p = OSQPVectorf_data(base); for (I i = 0; i < total; i++) if (i < head || i >= head + n) CHECK(memcmp(&p[i], &init[i], sizeof(F)) == 0, strf("outside:%s", op), "entry %d next to a view of %d changed", (int)(i - head), (int)n); }
  void unchanged(const char* op) { const F* p = OSQPVectorf_data(base); CHECK(OSQPVectorf_length(base) == total && (!total || memcmp(p, init.data(), total * sizeof(F)) == 0), strf("input_changed:%s", op), "an input of %s was modified", op); }
};
struct LI { OSQPVectori* v; I n; explicit LI(const VI& x) : n((I)x.size()) { I d; v = OSQPVectori_new(n ? const_cast<I*>(x.data()) : &d, n); } ~LI() { OSQPVectori_free(v); } operator OSQPVectori*() { return v; } VI get() { VI o(n); if (n) OSQPVectori_to_raw(o.data(), v); return o; } };
// ---------------------------------------------------------------- comparison
static const L TINY = sizeof(F) == 4 ? 1e-36L : 1e-300L;
static void same(const char* op, const VF& got, const VL& ref, const VL& mag, int terms) {
  for (size_t i = 0; i < ref.size(); i++) { L tol = (terms + 4) * 2 * eps_m() * mag[i] + TINY; if (!(fabsl((L)got[i] - ref[i]) <= tol)) { CHECK(false, op, "%s: entry %d of %d is %.17g, should be %.17Lg (terms up to %.3Lg)", op, (int)i, (int)ref.size(), (double)got[i], ref[i], mag[i]); return; } }
  EV("oracle_checks"); EV("entries", (long)ref.size()); std::string c = std::string("op:") + op; EV(c.c_str());
}
static void same1(const char* op, F got, L ref, L mag, int terms) { same(op, VF{got}, VL{ref}, VL{mag}, terms); }
static void exact(const char* op, const VF& got, const VF& ref) { for (size_t i = 0; i < ref.size(); i++) if (!(got[i] == ref[i])) { CHECK(false, op, "%s: entry %d of %d is %.17g, should be %.17g", op, (int)i, (int)ref.size(), (double)got[i], (double)ref[i]); return; } EV("oracle_checks"); EV("entries", (long)ref.size()); std::string c = std::string("op:") + op; EV(c.c_str()); }
static void exacti(const char* op, I got, I ref) { CHECK(got == ref, op, "%s: returned %d, should be %d", op, (int)got, (int)ref); std::string c = std::string("op:") + op; EV(c.c_str()); }

// ---------------------------------------------------------------- vectors
static void vectors(Rng& r, I n) {
  Vals md = rand_mode(r); VF a = vals(r, n, md), b = vals(r, n, md), c = vals(r, n, md), x = vals(r, n, md); VL ref(n), mag(n);
  auto setref = [&](std::function<L(I)> f, std::function<L(I)> g) { for (I i = 0; i < n; i++) { ref[i] = f(i); mag[i] = g(i); } };
  int op = r.irange(0, 26); bool al = r.chance(0.5);
  switch (op) {
  case 0: case 1: { LV A(r, a), B(r, b), X(r, x); OSQPVectorf* o = al ? A.v : X.v; if (op == 0) OSQPVectorf_plus(o, A, B); else OSQPVectorf_minus(o, A, B);
    setref([&](I i) { return op == 0 ? (L)a[i] + b[i] : (L)a[i] - b[i]; }, [&](I i) { return fabsl((L)a[i]) + fabsl((L)b[i]); }); const char* nm = op ? "minus" : "plus";
    same(nm, (al ? A : X).get(r), ref, mag, 1); (al ? A : X).surroundings(nm); B.unchanged(nm); if (!al) A.unchanged(nm); break; }
  case 2: case 3: { F s = scal(r, md), t = scal(r, md); if (md.mode == 2) { s = scal(r, Vals{3, 0, 0}); t = scal(r, Vals{3, 0, 0}); } LV A(r, a), B(r, b), X(r, x); OSQPVectorf_add_scaled(al ? A.v : X.v, s, A, t, B);
    setref([&](I i) { return (L)s * a[i] + (L)t * b[i]; }, [&](I i) { return fabsl((L)s * a[i]) + fabsl((L)t * b[i]); }); G.note += strf(" sca=%g scb=%g alias=%d", (double)s, (double)t, al);
    same("add_scaled", (al ? A : X).get(r), ref, mag, 2); (al ? A : X).surroundings("add_scaled"); B.unchanged("add_scaled"); if (!al) A.unchanged("add_scaled"); break; }
  case 4: case 5: { F s = scal(r, Vals{3, 0, 0}), t = scal(r, Vals{3, 0, 0}), w = scal(r, Vals{3, 0, 0}); LV A(r, a), B(r, b), C(r, c), X(r, x); OSQPVectorf_add_scaled3(al ? A.v : X.v, s, A, t, B, w, C);
    setref([&](I i) { return (L)s * a[i] + (L)t * b[i] + (L)w * c[i]; }, [&](I i) { return fabsl((L)s * a[i]) + fabsl((L)t * b[i]) + fabsl((L)w * c[i]); }); G.note += strf(" sca=%g scb=%g scc=%g alias=%d", (double)s, (double)t, (double)w, al);
    same("add_scaled3", (al ? A : X).get(r), ref, mag, 3); (al ? A : X).surroundings("add_scaled3"); B.unchanged("add_scaled3"); C.unchanged("add_scaled3"); if (!al) A.unchanged("add_scaled3"); break; }
  case 6: { LV A(r, a), B(r, b), X(r, x); OSQPVectorf_ew_prod(al ? A.v : X.v, A, B); setref([&](I i) { return (L)a[i] * b[i]; }, [&](I i) { return fabsl((L)a[i] * b[i]); }); same("ew_prod", (al ? A : X).get(r), ref, mag, 1); (al ? A : X).surroundings("ew_prod"); B.unchanged("ew_prod"); break; }
  case 7: { LV A(r, a); F s = scal(r, md); OSQPVectorf_mult_scalar(A, s); setref([&](I i) { return (L)a[i] * s; }, [&](I i) { return fabsl((L)a[i] * s); }); same("mult_scalar", A.get(r), ref, mag, 1); A.surroundings("mult_scalar"); break; }
  case 8: { LV A(r, a); L w = 0; for (auto e : a) w = std::max(w, fabsl((L)e)); exact("norm_inf", VF{OSQPVectorf_norm_inf(A)}, VF{(F)w}); A.unchanged("norm_inf"); break; }
  case 9: { LV A(r, a), B(r, b); L w = 0; for (I i = 0; i < n; i++) w = std::max(w, fabsl((L)a[i] * b[i])); same1("scaled_norm_inf", OSQPVectorf_scaled_norm_inf(A, B), w, w, 1); break; }
  case 10: { LV A(r, a), B(r, b); L w = 0, g = 0; for (I i = 0; i < n; i++) { w = std::max(w, fabsl((L)a[i] - b[i])); g = std::max(g, fabsl((L)a[i]) + fabsl((L)b[i])); } same1("norm_inf_diff", OSQPVectorf_norm_inf_diff(A, B), w, g, 1); break; }
  case 11: { LV A(r, a); L w = 0; for (auto e : a) w += fabsl((L)e); same1("norm_1", OSQPVectorf_norm_1(A), w, w, n); if (!MKL_) {
#ifndef OSQP_ALGEBRA_MKL
    if (md.mode != 2) { L s = 0; for (auto e : a) s += (L)e * e; same1("norm_2", OSQPVectorf_norm_2(A), sqrtl(s), sqrtl(s), n); }
#endif
    } break; }
  case 12: case 13: { LV A(r, a), B(r, b); int sg = op == 12 ? 0 : r.pick(std::vector<int>{-1, 0, 1, 2}); L w = 0, g = 0; for (I i = 0; i < n; i++) if (!((sg == 1 && b[i] < 0) || (sg == -1 && b[i] > 0))) { w += (L)a[i] * b[i]; g += fabsl((L)a[i] * b[i]); }
    if (op == 12) same1("dot_prod", OSQPVectorf_dot_prod(A, B), w, g, n); else { G.note += strf(" sign=%d", sg); same1("dot_prod_signed", OSQPVectorf_dot_prod_signed(A, B, sg), w, g, n); } A.unchanged("dot_prod"); B.unchanged("dot_prod"); break; }
  case 14: case 15: { LV A(r, a), B(r, b), X(r, x); VF o(n); bool mx = op == 14; for (I i = 0; i < n; i++) o[i] = mx ? std::max(a[i], b[i]) : std::min(a[i], b[i]); auto& T = al ? B : X; if (mx) OSQPVectorf_ew_max_vec(T, A, B); else OSQPVectorf_ew_min_vec(T, A, B); exact(mx ? "ew_max_vec" : "ew_min_vec", T.get(r), o); T.surroundings("ew_max_vec"); A.unchanged("ew_max_vec"); break; }
  case 16: { for (auto& e : a) if (e == 0) e = 1; LV A(r, a), X(r, x); OSQPVectorf_ew_reciprocal(al ? A.v : X.v, A); setref([&](I i) { return 1 / (L)a[i]; }, [&](I i) { return fabsl(1 / (L)a[i]); }); same("ew_reciprocal", (al ? A : X).get(r), ref, mag, 1); (al ? A : X).surroundings("ew_reciprocal"); break; }
  case 17: { for (auto& e : a) e = std::fabs(e); LV A(r, a); OSQPVectorf_ew_sqrt(A); setref([&](I i) { return sqrtl((L)a[i]); }, [&](I i) { return sqrtl((L)a[i]); }); same("ew_sqrt", A.get(r), ref, mag, 1); A.surroundings("ew_sqrt"); break; }
  case 18: case 19: case 20: case 21: {   // functions of a vector and bounds
    VF l(n), u(n); F thr = (F)1e26; for (I i = 0; i < n; i++) { l[i] = bound(r, md, -1); u[i] = bound(r, md, 1); if (l[i] > u[i]) std::swap(l[i], u[i]); if (r.chance(0.15) && u[i] < 1e25) l[i] = u[i]; }
    LV Lo(r, l), Up(r, u), Z(r, a), X(r, x); G.note += " bounds";
    if (op == 18) { auto& T = al ? Z : X; OSQPVectorf_ew_bound_vec(T, Z, Lo, Up); VF o(n); for (I i = 0; i < n; i++) o[i] = std::min(std::max(a[i], l[i]), u[i]); exact("ew_bound_vec", T.get(r), o); T.surroundings("ew_bound_vec"); }
    else if (op == 19) { OSQPVectorf_project_polar_reccone(Z, Lo, Up, thr); VF o(n); for (I i = 0; i < n; i++) { bool li = l[i] < -thr, ui = u[i] > thr; o[i] = li && ui ? 0 : ui ? std::min(a[i], (F)0) : li ? std::max(a[i], (F)0) : a[i]; } exact("project_polar_reccone", Z.get(r), o); Z.surroundings("project_polar_reccone"); }
    else if (op == 20) { F tol = r.chance(0.3) ? (F)0 : (F)r.logu(1e-8, 1e2); if (r.chance(0.7)) for (I i = 0; i < n; i++) { F t = std::min<F>(std::fabs(a[i]), tol * (F)0.9); if (r.chance(0.9)) { if (u[i] < thr && a[i] > 0) a[i] = t; if (l[i] > -thr && a[i] < 0) a[i] = -t; } }
      LV Y(r, a); I want = 1; for (I i = 0; i < n; i++) if ((u[i] < thr && a[i] > tol) || (l[i] > -thr && a[i] < -tol)) want = 0; G.note += strf(" tol=%g", (double)tol); exacti("in_reccone", OSQPVectorf_in_reccone(Y, Lo, Up, thr, tol), want); EV(want ? "in_cone" : "not_in_cone"); Y.unchanged("in_reccone"); }
    else { F tol = (F)1e-4; VI old(n); std::vector<I> want(n); I ch = 0; for (I i = 0; i < n; i++) { want[i] = l[i] < -thr && u[i] > thr ? -1 : u[i] - l[i] < tol ? 1 : 0; old[i] = r.chance(0.8) ? want[i] : r.irange(-1, 1); } if (r.chance(0.4)) old.assign(want.begin(), want.end()); for (I i = 0; i < n; i++) if (old[i] != want[i]) ch = 1;
      LI T(old); I got = OSQPVectorf_ew_bounds_type(T, Lo, Up, tol, thr); exacti("ew_bounds_type", got ? 1 : 0, ch); CHECK(T.get() == VI(want.begin(), want.end()), "ew_bounds_type", "a constraint got the wrong type"); }
    Lo.unchanged("bounds"); Up.unchanged("bounds"); break; }
  case 22: { LV L_(r, a), U(r, b); VF bb = b; if (r.chance(0.6)) { for (I i = 0; i < n; i++) bb[i] = std::max(a[i], b[i]); } LV U2(r, bb); I w = 1; for (I i = 0; i < n; i++) if (a[i] > bb[i]) w = 0; exacti("all_leq", OSQPVectorf_all_leq(L_, U2) ? 1 : 0, w); break; }
  case 23: { LV Z(r, a), X(r, x); F t = r.chance(0.3) && n ? a[r.irange(0, n - 1)] : val(r, md), nv = val(r, md); auto& T = al ? Z : X; bool lt = r.chance(0.5); VF o(n); for (I i = 0; i < n; i++) o[i] = (lt ? a[i] < t : a[i] > t) ? nv : a[i]; if (lt) OSQPVectorf_set_scalar_if_lt(T, Z, t, nv); else OSQPVectorf_set_scalar_if_gt(T, Z, t, nv); exact(lt ? "set_scalar_if_lt" : "set_scalar_if_gt", T.get(r), o); T.surroundings("set_scalar_if"); break; }
  case 24: { LV A(r, a); VI t(n); for (auto& e : t) e = r.irange(-1, 1) * r.irange(1, 3); F p = val(r, md), q = val(r, md), s = val(r, md); LI T(t); OSQPVectorf_set_scalar_conditional(A, T, p, q, s); VF o(n); for (I i = 0; i < n; i++) o[i] = t[i] < 0 ? p : t[i] ? s : q; exact("set_scalar_conditional", A.get(r), o); A.surroundings("set_scalar_conditional"); CHECK(T.get() == t, "input_changed:set_scalar_conditional", "test vector changed"); break; }
  case 25: { LV A(r, a); F t = r.chance(0.3) ? (F)0 : std::fabs(val(r, md)); if (r.chance(0.5)) { OSQPVectorf_round_to_zero(A, t); VF o = a; for (auto& e : o) if (std::fabs(e) < t) e = 0; exact("round_to_zero", A.get(r), o); A.surroundings("round_to_zero"); } else { OSQPVectorf_set_scalar(A, t); exact("set_scalar", A.get(r), VF(n, t)); A.surroundings("set_scalar"); } break; }
  default: {   // copies and storage
    LV A(r, a), X(r, x); OSQPVectorf_copy(X, A); exact("copy", X.get(r), a); X.surroundings("copy"); A.unchanged("copy");
    F tol = (F)r.logu(1e-6, 1); VF b2 = a; I eq = 1; if (n && r.chance(0.7)) { I k = r.irange(0, n - 1); b2[k] = (F)(a[k] + (r.chance(0.5) ? 3 : 0.3) * tol); for (I i = 0; i < n; i++) { if (std::fabs(a[i] - b2[i]) > tol) eq = 0; } } LV B(r, b2); exacti("is_eq", OSQPVectorf_is_eq(A, B, tol) ? 1 : 0, eq);
    OSQPVectorf* z = OSQPVectorf_calloc(n); VF zero(n); exact("calloc", VF(OSQPVectorf_data(z), OSQPVectorf_data(z) + n), zero); OSQPVectorf_free(z);
    OSQPVectorf* cp = OSQPVectorf_copy_new(A); exact("copy_new", VF(OSQPVectorf_data(cp), OSQPVectorf_data(cp) + n), a); OSQPVectorf_free(cp);
    VI t(n); for (auto& e : t) e = r.irange(-5, 5); LI T(t); exacti("lengthi", OSQPVectori_length(T), n); VI t2(n); for (auto& e : t2) e = r.irange(-5, 5); if (n) OSQPVectori_from_raw(T, t2.data()); CHECK(T.get() == t2, "from_rawi", "integer copy differs");
#ifndef OSQP_ALGEBRA_MKL
    VI rows(n); I k = 0; VF sub; for (I i = 0; i < n; i++) { rows[i] = r.chance(0.5); if (rows[i]) { sub.push_back(a[i]); k++; } } LI Rw(rows); OSQPVectorf* sv = OSQPVectorf_subvector_byrows(A, Rw); exacti("subvector_length", OSQPVectorf_length(sv), k); if (OSQPVectorf_length(sv) == k) exact("subvector_byrows", VF(OSQPVectorf_data(sv), OSQPVectorf_data(sv) + k), sub); OSQPVectorf_free(sv);
    OSQPVectorf* cc = OSQPVectorf_concat(A, B); VF ab = a; ab.insert(ab.end(), b2.begin(), b2.end()); exacti("concat_length", OSQPVectorf_length(cc), 2 * n); exact("concat", VF(OSQPVectorf_data(cc), OSQPVectorf_data(cc) + 2 * n), ab); OSQPVectorf_free(cc);
    I st = r.irange(0, n), ln = r.irange(0, n - st); F mu = scal(r, Vals{3, 0, 0}); VF src = vals(r, ln, md), o = a; src.push_back(0); for (I i = 0; i < ln; i++) o[st + i] = mu * src[i]; OSQPVectorf_subvector_assign(A, src.data(), st, ln, mu); { VL rl(o.begin(), o.end()), ml(n); for (I i = 0; i < n; i++) ml[i] = fabsl(rl[i]); same("subvector_assign", A.get(r), rl, ml, 1); }
    OSQPVectorf_subvector_assign_scalar(A, mu, st, ln); for (I i = 0; i < ln; i++) o[st + i] = mu; { VL rl(o.begin(), o.end()), ml(n); for (I i = 0; i < n; i++) ml[i] = fabsl(rl[i]); same("subvector_assign_scalar", A.get(r), rl, ml, 1); } A.surroundings("subvector_assign");
#endif
    break; }
  }
}
// ---------------------------------------------------------------- matrices
struct LM {
  OSQPMatrix* M; Csc c; bool triu;   // c: what the matrix should contain now
  LM(Rng& r, const Csc& c0, bool t) : c(c0), triu(t) {
    CscView V(c); Csc big = c;   // the caller may keep more room than entries
    if (r.chance(0.2) && c.m > 0) { for (int k = r.irange(1, 4); k > 0; k--) { big.i.push_back(0); big.x.push_back(7); } V = CscView(big); V.M.nzmax = (I)big.i.size(); V.M.p = big.p.data(); }
    M = OSQPMatrix_new_from_csc(&V.M, t);
  }
  ~LM() { OSQPMatrix_free(M); } LM(const LM&) = delete; LM& operator=(const LM&) = delete;
  // entries as stored now (same pattern as c)
  VF stored() { return VF(OSQPMatrix_get_x(M), OSQPMatrix_get_x(M) + c.nnz()); }
  void structure(const char* op) { bool ok = OSQPMatrix_get_m(M) == c.m && OSQPMatrix_get_n(M) == c.n && OSQPMatrix_get_nz(M) == c.nnz(); CHECK(ok, strf("dims:%s", op), "after %s: %dx%d with %d entries, should be %dx%d with %d", op, (int)OSQPMatrix_get_m(M), (int)OSQPMatrix_get_n(M), (int)OSQPMatrix_get_nz(M), (int)c.m, (int)c.n, (int)c.nnz()); if (!ok) return;
    const I* p = OSQPMatrix_get_p(M); const I* i = OSQPMatrix_get_i(M); bool s = true; for (I j = 0; j <= c.n; j++) s = s && p[j] == c.p[j]; for (I k = 0; k < c.nnz(); k++) s = s && i[k] == c.i[k]; CHECK(s, strf("pattern:%s", op), "after %s the sparsity pattern differs", op); }
  void keep(const char* op) { structure(op); exact(op, stored(), c.x); }
};
static Csc rand_csc(Rng& r, I m, I n, bool triu, const Vals& md) {
  Csc c; c.m = m; c.n = n; c.p.assign(n + 1, 0); double den = r.pick(std::vector<double>{0, 0.15, 0.4, 0.8, 1}); bool shuffle = r.chance(0.3);
  for (I j = 0; j < n; j++) { std::vector<I> rows; for (I i = 0; i < (triu ? std::min<I>(j + 1, m) : m); i++) if (r.chance(den)) rows.push_back(i); if (shuffle) for (size_t k = rows.size(); k > 1; k--) std::swap(rows[k - 1], rows[r.irange(0, (int)k - 1)]); for (I i : rows) { c.i.push_back(i); c.x.push_back(val(r, md)); } c.p[j + 1] = (I)c.i.size(); }
  return c;
}
// sum over stored entries (mirrored when symmetric) of f(row, col, value)
static void each(const Csc& c, bool sym, std::function<void(I, I, L)> f) { for (I j = 0; j < c.n; j++) for (I k = c.p[j]; k < c.p[j + 1]; k++) { f(c.i[k], j, c.x[k]); if (sym && c.i[k] != j) f(j, c.i[k], c.x[k]); } }
static void same_csc(const char* op, const OSQPCscMatrix* M, const Csc& c) {
  bool ok = M && M->m == c.m && M->n == c.n; for (I j = 0; ok && j <= c.n; j++) ok = M->p[j] == c.p[j]; CHECK(ok, op, "%s: wrong dimensions or columns", op); if (!ok) return;
  for (I k = 0; k < c.nnz(); k++) ok = ok && M->i[k] == c.i[k] && M->x[k] == c.x[k]; CHECK(ok, op, "%s: wrong entries", op); std::string e = std::string("op:") + op; EV(e.c_str());
}
static Csc sub_rows(const Csc& c, const VI& rows) { Csc s; s.n = c.n; s.p.assign(c.n + 1, 0); VI map(c.m, -1); for (I i = 0; i < c.m; i++) if (rows[i]) map[i] = s.m++; for (I j = 0; j < c.n; j++) { for (I k = c.p[j]; k < c.p[j + 1]; k++) if (map[c.i[k]] >= 0) { s.i.push_back(map[c.i[k]]); s.x.push_back(c.x[k]); } s.p[j + 1] = (I)s.i.size(); } return s; }
static void products(Rng& r, LM& A, const Vals& md0) {
  const Csc& c = A.c; Vals md = md0; bool tr = r.chance(0.5); I no = tr ? c.n : c.m, ni = tr ? c.m : c.n; F al = scal(r, Vals{3, 0, 0}), be = scal(r, Vals{3, 0, 0});
  VF x = vals(r, ni, md), y = vals(r, no, md); bool poison = be == 0 && r.chance(0.7); VF y0 = y; if (poison) for (auto& e : y0) e = (F)NAN;
  LV X(r, x), Y(r, y0); G.note += strf(" %s alpha=%g beta=%g%s", tr ? "Atx" : "Ax", (double)al, (double)be, poison ? " output uninitialised" : ""); VL ref(no), mag(no); for (I i = 0; i < no; i++) { ref[i] = be == 0 ? 0 : (L)be * y[i]; mag[i] = fabsl(ref[i]); }
  each(c, A.triu, [&](I i, I j, L v) { I o = tr ? j : i, in = tr ? i : j; L t = (L)al * v * x[in]; ref[o] += t; mag[o] += fabsl(t); });
  if (tr) OSQPMatrix_Atxpy(A.M, X, Y, al, be); else OSQPMatrix_Axpy(A.M, X, Y, al, be);
  const char* op = tr ? (A.triu ? "Atxpy_sym" : "Atxpy") : (A.triu ? "Axpy_sym" : "Axpy"); if (poison) EV("poisoned_products"); if (!c.nnz()) EV("empty_products");
  same(op, Y.get(r), ref, mag, ni + 1); Y.surroundings(op); X.unchanged(op); A.keep(op);
}
static void matrices(Rng& r) {
  Vals md = rand_mode(r); bool triu = r.chance(0.4); I n = r.chance(0.1) ? r.irange(1, 60) : r.irange(r.chance(0.1) ? 0 : 1, 9), m = triu ? n : r.chance(0.15) ? 0 : r.irange(1, 10); if (n == 0 && MKL_) n = 1, m = triu ? 1 : m;
  if (!triu && r.chance(0.2)) m = n; Csc c = rand_csc(r, m, n, triu, md); G.note += strf("matrix %dx%d nnz=%d%s mode=%d", (int)m, (int)n, (int)c.nnz(), triu ? " triu" : "", md.mode); SIG(strf("M %d %d %d %d", (int)m, (int)n, (int)c.nnz(), triu));
  LM A(r, c, triu); CHECK(A.M != nullptr, "new_from_csc", "a matrix could not be created"); if (!A.M) return; A.keep("new_from_csc");
  { OSQPCscMatrix* g = OSQPMatrix_get_csc(A.M); same_csc("get_csc", g, c); csc_spfree(g); }
  int steps = r.irange(1, 5);
  for (int s = 0; s < steps; s++) {
    Csc& k = A.c; int op = r.irange(0, 9); if (op > 2) G.note += strf(" op%d", op);
    if (op <= 2) { products(r, A, md); continue; }
    if (op == 3) { VF d = vals(r, r.chance(0.5) ? k.m : k.n, Vals{3, 0, 0}); bool left = r.chance(0.5); d = vals(r, left ? k.m : k.n, Vals{3, 0, 0}); LV D(r, d); VL ref, mag; for (I j = 0; j < k.n; j++) for (I e = k.p[j]; e < k.p[j + 1]; e++) { ref.push_back((L)k.x[e] * d[left ? k.i[e] : j]); mag.push_back(fabsl(ref.back())); }
      if (left) OSQPMatrix_lmult_diag(A.M, D); else OSQPMatrix_rmult_diag(A.M, D); A.structure("diag_scaling"); VF got = A.stored(); same(left ? "lmult_diag" : "rmult_diag", got, ref, mag, 1); k.x = got; D.unchanged("diag_scaling"); }
    else if (op == 4) { F t = scal(r, Vals{3, 0, 0}); VL ref, mag; for (auto e : k.x) { ref.push_back((L)e * t); mag.push_back(fabsl((L)e * t)); } OSQPMatrix_mult_scalar(A.M, t); A.structure("matrix_mult_scalar"); VF got = A.stored(); same("matrix_mult_scalar", got, ref, mag, 1); k.x = got; }
    else if (op == 5) { I z = k.nnz(); bool idx = r.chance(0.6); I cnt = idx ? r.irange(0, z) : z; std::vector<I> all(z); for (I i = 0; i < z; i++) all[i] = i; for (I i = z; i > 1; i--) std::swap(all[i - 1], all[r.irange(0, i - 1)]); VF nv = vals(r, cnt, md); VI id(all.begin(), all.begin() + cnt); F fd; I dd; for (I i = 0; i < cnt; i++) k.x[idx ? id[i] : i] = nv[i]; OSQPMatrix_update_values(A.M, cnt ? nv.data() : &fd, idx ? (cnt ? id.data() : &dd) : nullptr, cnt); A.keep("update_values"); }
    else if (op == 6) { VL rn(k.m), cn(k.n); each(k, false, [&](I, I j, L v) { cn[j] = std::max(cn[j], fabsl(v)); }); each(k, A.triu, [&](I i, I, L v) { rn[i] = std::max(rn[i], fabsl(v)); }); LV E(r, vals(r, k.m, md)), C(r, vals(r, k.n, md)); OSQPMatrix_row_norm_inf(A.M, E); exact(A.triu ? "row_norm_inf_sym" : "row_norm_inf", E.get(r), VF(rn.begin(), rn.end())); E.surroundings("row_norm_inf");
      if (!A.triu) { OSQPMatrix_col_norm_inf(A.M, C); exact("col_norm_inf", C.get(r), VF(cn.begin(), cn.end())); C.surroundings("col_norm_inf"); } A.keep("norms"); }
    else if (op == 7) { if (k.m == k.n) { VF d(k.n); each(k, false, [&](I i, I j, L v) { if (i == j) d[i] = (F)v; }); LV D(r, vals(r, k.n, md)); OSQPMatrix_extract_diag(A.M, D); exact("extract_diag", D.get(r), d); D.surroundings("extract_diag"); }
      if (!A.triu && md.mode != 2) { VF d = vals(r, k.m, Vals{3, 0, 0}); LV D(r, d), O(r, vals(r, k.n, md)); VL ref(k.n), mag(k.n); each(k, false, [&](I i, I j, L v) { ref[j] += v * v * d[i]; mag[j] += fabsl(v * v * d[i]); }); OSQPMatrix_AtDA_extract_diag(A.M, D, O); same("AtDA_diag", O.get(r), ref, mag, k.m + 2); O.surroundings("AtDA_diag"); } A.keep("diagonals"); }
    else if (op == 8) { if (A.triu) continue; VI rows(k.m); double p = r.pick(std::vector<double>{0, 0.3, 0.7, 1}); for (auto& e : rows) e = r.chance(p) ? r.pick(std::vector<int>{1, 1, 2, -1}) : 0; LI Rw(rows); OSQPMatrix* S = OSQPMatrix_submatrix_byrows(A.M, Rw); CHECK(S != nullptr, "submatrix_byrows", "no matrix returned"); if (!S) continue; Csc sub = sub_rows(k, rows); G.note += strf(" submatrix %dx%d", (int)sub.m, (int)sub.n);
      OSQPCscMatrix* g = OSQPMatrix_get_csc(S); same_csc("submatrix_byrows", g, sub); csc_spfree(g); if (r.chance(0.7)) { VF x = vals(r, sub.n, md), w = vals(r, sub.m, md); LV X(r, x), W(r, w), Y(r, vals(r, sub.m, md)), Z(r, vals(r, sub.n, md)); VL y(sub.m), ym(sub.m), z(sub.n), zm(sub.n); each(sub, false, [&](I i, I j, L v) { y[i] += v * x[j]; ym[i] += fabsl(v * x[j]); z[j] += v * w[i]; zm[j] += fabsl(v * w[i]); }); OSQPMatrix_Axpy(S, X, Y, 1, 0); OSQPMatrix_Atxpy(S, W, Z, 1, 0); same("submatrix_Ax", Y.get(r), y, ym, sub.n); same("submatrix_Atx", Z.get(r), z, zm, sub.m); }
      OSQPMatrix_free(S); A.keep("row_selection"); }
    else { Csc d = k; I eq = 1; F tol = (F)r.logu(1e-6, 1e-1); if (d.nnz() && r.chance(0.7)) { I e = r.irange(0, d.nnz() - 1); d.x[e] = (F)(d.x[e] + (r.chance(0.5) ? 3 : 0.3) * tol); if (std::fabs(d.x[e] - k.x[e]) > tol) eq = 0; } LM B(r, d, A.triu); if (B.M) exacti("matrix_is_eq", OSQPMatrix_is_eq(A.M, B.M, tol) ? 1 : 0, eq); A.keep("is_eq");
#ifndef OSQP_ALGEBRA_MKL
      OSQPMatrix* cp = OSQPMatrix_copy_new(A.M); OSQPCscMatrix* g = OSQPMatrix_get_csc(cp); same_csc("matrix_copy_new", g, k); csc_spfree(g); OSQPMatrix_free(cp);
      if (A.triu && k.m > 0) { OSQPMatrix* S = OSQPMatrix_triu_to_symm(A.M); CHECK(S != nullptr, "triu_to_symm", "no matrix returned"); if (S) { std::map<std::pair<I, I>, F> want, got; each(k, true, [&](I i, I j, L v) { want[{i, j}] = (F)v; }); OSQPCscMatrix* h = OSQPMatrix_get_csc(S); for (I j = 0; j < h->n; j++) for (I e = h->p[j]; e < h->p[j + 1]; e++) got[{h->i[e], j}] = h->x[e]; CHECK(got == want && h->m == k.m && h->n == k.n, "triu_to_symm", "the full matrix differs"); EV("op:triu_to_symm"); csc_spfree(h); OSQPMatrix_free(S); } }
      if (!A.triu && k.m > 0) { I m2 = r.irange(1, 5); Csc d2 = rand_csc(r, m2, k.n, false, md); LM B2(r, d2, false); OSQPMatrix* S = OSQPMatrix_vstack(A.M, B2.M); CHECK(S != nullptr, "vstack", "no matrix returned"); if (S) { std::map<std::pair<I, I>, F> want, got; each(k, false, [&](I i, I j, L v) { want[{i, j}] = (F)v; }); each(d2, false, [&](I i, I j, L v) { want[{i + k.m, j}] = (F)v; }); OSQPCscMatrix* h = OSQPMatrix_get_csc(S); for (I j = 0; j < h->n; j++) for (I e = h->p[j]; e < h->p[j + 1]; e++) got[{h->i[e], j}] = h->x[e]; CHECK(got == want && h->m == k.m + m2 && h->n == k.n, "vstack", "the stacked matrix differs"); EV("op:vstack"); csc_spfree(h); OSQPMatrix_free(S); } }
#endif
    }
  }
}
PROPERTY(P23) {
  static I once = osqp_algebra_init_libs(0); CHECK(once == 0, "init_libs", "the algebra library could not be initialised");
  G.note.clear(); if (r.chance(0.5)) { matrices(r); return; }
  I n = r.chance(0.08) ? 0 : r.chance(0.1) ? r.irange(20, 300) : r.irange(1, 17); G.note = strf("vectors of length %d", (int)n); SIG(strf("V %d", (int)n)); for (int k = 0; k < 6; k++) vectors(r, n);
}
