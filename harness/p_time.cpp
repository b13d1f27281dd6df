// Times and the time limit (P28): with a clock the monitor drives, and with the real one.
#include "history.h"
#include <time.h>
#include <sys/time.h>
typedef long long N;
static double sec(N n) { return (double)n * 1e-9; }
static bool close_(double a, double b) { return std::fabs(a - b) <= 3e-9 + 1e-11 * std::fabs(b); }
static bool atleast(double a, double b) { return a >= b - 3e-9 - 1e-11 * std::fabs(b); }
static bool limits(I f) { return f == OSQP_TIME_LIMIT_REACHED; }
// ------------------------------------------------------------------ the clock of the library
static N vnow = 0, vreads = 0;
#ifdef VF_CLOCK
extern "C" int vf_clock_gettime(int, struct timespec* ts) { vreads++; ts->tv_sec = (time_t)(vnow / 1000000000LL); ts->tv_nsec = (long)(vnow % 1000000000LL); return 0; }
extern "C" int vf_gettimeofday(struct timeval* tv, void*) { vreads++; tv->tv_sec = (time_t)(vnow / 1000000000LL); tv->tv_usec = (vnow % 1000000000LL) / 1000; return 0; }
#endif
static N real_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (N)t.tv_sec * 1000000000LL + t.tv_nsec; }
enum {
#ifdef VF_CLOCK
  VIRT = 1
#else
  VIRT = 0
#endif
};
static N now_() { return VIRT ? vnow : real_ns(); }
static Rng* RR = nullptr; static double g_p = 0, g_lo = 0, g_hi = 0; static N g_cap = 0;
// a delay somewhere in the library: the virtual clock jumps, the real one is slept on
static N delay() {
  if (!RR->chance(g_p)) return 0; N d = (N)(1e9 * RR->logu(g_lo, g_hi)); if (!VIRT && (g_cap -= d) < 0) return 0;
  EV("delays"); N t = now_(); if (VIRT) vnow += d; else { struct timespec s{0, (long)d}; nanosleep(&s, nullptr); } return now_() - t;
}
// delays at allocations, in order
static std::vector<N> allocs; static bool in_alloc = false;
static void on_alloc() { if (in_alloc) return; in_alloc = true; allocs.push_back(delay()); in_alloc = false; }
static N sum(const std::vector<N>& v, size_t skip_front, size_t skip_back) { N s = 0; for (size_t i = skip_front; i + skip_back < v.size(); i++) s += v[i]; return s; }
struct AllocDelays {
#ifdef VF_TRACK
  AllocDelays() { allocs.clear(); vf_mem_hook = &on_alloc; } ~AllocDelays() { vf_mem_hook = nullptr; }
#else
  AllocDelays() { allocs.clear(); }
#endif
};
static void nonneg(const OSQPInfo& in, const char* tag) { const double v[5] = {(double)in.setup_time, (double)in.solve_time, (double)in.update_time, (double)in.polish_time, (double)in.run_time}; for (double t : v) { EV("time_checks"); CHECK(std::isfinite(t) && t >= 0, "negative_time", "%s: times %g %g %g %g %g", tag, v[0], v[1], v[2], v[3], v[4]); } }

PROPERTY(P28) {
  RR = &r; GenOpt o; o.nmax = 6; o.mmax = 8; Prob pb = r.chance(0.75) ? gen_solvable(r, o) : r.chance(0.5) ? gen_strict(r, o) : gen_any(r, o);
  OSQPSettings st = rand_settings(r); st.verbose = 0; if (r.chance(0.5)) st.max_iter = r.irange(1, 60); if (r.chance(0.3)) st.check_termination = 0; if (r.chance(0.25)) { st.eps_abs = 0; st.eps_rel = (F)1e-12; }
  if (VIRT) { vnow = (N)(r.u01() * 4e18); g_p = r.u01() * 0.5; g_lo = r.logu(1e-9, 1e-2); g_hi = g_lo * r.logu(1, 1e6); } else { g_p = 0.05 * r.u01(); g_lo = 2e-6; g_hi = r.logu(1e-5, 1e-3); g_cap = 20000000; }
  auto rand_limit = [&]() { int k = r.irange(0, 9); double typ = (g_lo + g_hi) * 0.5; return (F)(k == 0 ? 1e10 : k == 1 ? 0 : k < 4 ? typ * r.logu(1e-6, 1e-1) : typ * r.logu(1e-1, 1e3)); };
  st.time_limit = rand_limit(); if (st.time_limit < 0) st.time_limit = 1;
  Model m{pb, st}; std::vector<Op> ops = gen_ops(r, m, M_SOLVE | M_VEC | M_MAT | M_RHO | M_SET | M_WARM | M_COLD, r.irange(0, 7)); ops.push_back(op_solve());
  G.note = prob_str(pb) + " | " + settings_str(st) + strf(" tl=%.9g delays p=%.2f %.2g..%.2g | ", (double)st.time_limit, g_p, g_lo, g_hi) + ops_str(ops); SIG(G.note);
  Solver S; N a0 = now_(); double su_all, su_mid; { AllocDelays D; S.setup(pb, st); su_all = sec(sum(allocs, 0, 0)); su_mid = sec(sum(allocs, 8, 20)); } double wall = sec(now_() - a0);
  if (S.flag) { EV("setup_failed"); return; }
  OSQPInfo& in = *S.s->info; nonneg(in, "after setup"); EV("setup_times");
  CHECK(atleast(wall, in.setup_time), "setup_time_long", "setup_time %.9g, the call took %.9g", (double)in.setup_time, wall);
  CHECK(atleast(in.setup_time, su_mid), "setup_time_short", "setup_time %.9g, delays inside setup %.9g", (double)in.setup_time, su_mid); (void)su_all;
  CHECK(in.solve_time == 0 && in.update_time == 0 && in.polish_time == 0 && in.run_time == 0, "stale_times", "after setup: solve %g update %g polish %g run %g", (double)in.solve_time, (double)in.update_time, (double)in.polish_time, (double)in.run_time);
  const double setup = in.setup_time; bool first = true, cleared = false; double upd = 0, updw = 0;     // delays seen in, wall time of, updates since the last solve
  for (auto& q0 : ops) {
    Op q = q0; if (q.k == SETT) { q.st.verbose = 0; q.st.time_limit = rand_limit(); if (q.st.time_limit < 0) q.st.time_limit = 1; }
    OSQPInfo before = in;
    if (q.k != SOLVE) {
      N d = 0, t0 = now_(); I f; { AllocDelays D; hook_updates(S.s, [&](int) { d += delay(); }); f = op_apply(S, q); unhook_updates(S.s); d += sum(allocs, 0, 0); } double w = sec(now_() - t0);
      nonneg(in, "after an update"); CHECK(in.setup_time == before.setup_time && (in.solve_time == before.solve_time || in.solve_time == 0) && (in.polish_time == before.polish_time || in.polish_time == 0) && (in.run_time == before.run_time || in.run_time == 0), "other_times_changed", "%s changed setup %g->%g solve %g->%g polish %g->%g run %g->%g", op_str(q).c_str(), (double)before.setup_time, (double)in.setup_time, (double)before.solve_time, (double)in.solve_time, (double)before.polish_time, (double)in.polish_time, (double)before.run_time, (double)in.run_time);
      bool timed = q.k == VEC || q.k == MAT || q.k == RHO;
      if (!timed) { CHECK(in.update_time == before.update_time, "update_time_moved", "%s changed update_time %g->%g", op_str(q).c_str(), (double)before.update_time, (double)in.update_time); if (f) return; continue; }
      if (f) { EV("failed_updates"); return; }
      if (cleared) { upd = updw = 0; cleared = false; } upd += sec(d); updw += w; EV("update_times");
      CHECK(atleast(in.update_time, upd), "update_time_short", "%s: update_time %.9g, delays in updates since the last solve %.9g", op_str(q).c_str(), (double)in.update_time, upd);
      CHECK(atleast(updw, in.update_time), "update_time_long", "%s: update_time %.9g, updates since the last solve took %.9g", op_str(q).c_str(), (double)in.update_time, updw);
      continue;
    }
    const double lim = S.s->settings->time_limit, base = first ? setup : cleared ? 0 : (double)before.update_time; const I maxit = S.s->settings->max_iter;
    I iters = 0; N t1 = 0, post_end = 0, dsolve = 0; bool expired = false, late = false; double at = 0; N T0 = now_(); I f; N d_alloc = 0; std::vector<N> al;
    { AllocDelays D; hook_updates(S.s, [&](int) { dsolve += delay(); });
      Hooked h(S.s, [&](const VF&, const VF&, I, I) { dsolve += delay(); post_end = now_(); double e = base + sec(post_end - t1); if (lim > 0 && e > lim + 3e-9 + 1e-11 * lim) { if (!expired) at = e; expired = true; } },
        [&](I) { iters++; if (iters == 1) t1 = now_(); if (expired) late = true; dsolve += delay(); });
      f = S.solve(); unhook_updates(S.s); al = allocs; d_alloc = sum(allocs, 0, 0); }
    double w = sec(now_() - T0); EV("solves"); nonneg(in, "after a solve");
    CHECK(!late, "limit_overrun", "limit %.9g had expired (%.9g) after a linear solve, the solver went on to iteration %d", lim, at, (int)iters);
    CHECK(in.iter == iters, "iteration_count", "info reports %d iterations, %d were performed (%s)", (int)in.iter, (int)iters, in.status);
    if (limits(in.status_val)) { EV("time_limits"); CHECK(lim > 0 && atleast(base + w, lim), "early_limit", "time limit %.9g reported, base %.9g + solve %.9g", lim, base, w); if (VIRT) CHECK(expired || atleast(base + sec(post_end - T0), lim), "early_limit", "time limit %.9g reported at %.9g", lim, base + sec(post_end - T0)); }
    if (expired) { EV("expired"); CHECK(in.status_val != OSQP_MAX_ITER_REACHED && in.status_val != OSQP_UNSOLVED, "limit_not_reported", "limit %.9g had expired (%.9g) at iteration %d of at most %d, status is %s", lim, at, (int)iters, (int)maxit, in.status); }
    CHECK(in.status_val != OSQP_UNSOLVED, "unsolved", "a solve ended with status unsolved");
    CHECK(atleast(in.solve_time, sec(dsolve)), "solve_time_short", "solve_time %.9g, delays inside the iterations %.9g", (double)in.solve_time, sec(dsolve));
    CHECK(atleast(w, in.solve_time + in.polish_time), "solve_time_long", "solve_time %.9g + polish_time %.9g, the call took %.9g", (double)in.solve_time, (double)in.polish_time, w);
    CHECK(in.setup_time == setup, "setup_time_changed", "a solve changed setup_time %g->%g", setup, (double)in.setup_time);
    if (in.status_polish == OSQP_POLISH_NOT_PERFORMED) CHECK(in.polish_time == 0, "polish_time_stale", "polish_time %.9g, no polishing took place", (double)in.polish_time);
    if (in.status_polish == OSQP_POLISH_SUCCESS) { EV("polish_times"); CHECK(atleast(in.polish_time, sec(sum(al, 0, 4))), "polish_time_short", "polish_time %.9g, delays while polishing %.9g", (double)in.polish_time, sec(d_alloc)); }
    if (VIRT) { EV("exact_times"); CHECK(close_(in.solve_time, sec(dsolve)), "solve_time", "solve_time %.12g, the clock advanced by %.12g", (double)in.solve_time, sec(dsolve)); }
    double u = cleared ? 0 : (double)before.update_time; CHECK(in.update_time == (F)u, "update_time_kept", "a solve reports update_time %.9g, %.9g was spent since the previous solve", (double)in.update_time, u);
    double want = (first ? setup : u) + in.solve_time + in.polish_time; EV("run_times"); CHECK(close_(in.run_time, want), "run_time", "run_time %.12g, %s %.9g + solve %.9g + polish %.9g", (double)in.run_time, first ? "setup" : "update", first ? setup : u, (double)in.solve_time, (double)in.polish_time);
    first = false; cleared = true; if (f) { EV("failed_solves"); return; }
  }
}
