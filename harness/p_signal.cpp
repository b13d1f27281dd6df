// Interrupts (P19) and concurrent use of distinct solvers (P16).
#include "history.h"
#include <signal.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <atomic>
#include <thread>
#ifdef __SANITIZE_THREAD__
enum { VF_TSAN = 1 };   // its sigaction interceptor does not report the mask
#else
enum { VF_TSAN = 0 };
#endif
// ------------------------------------------------------------------ the disposition of SIGINT
static std::atomic<long> caught{0};
static void on_int(int) { caught++; }
static void on_info(int, siginfo_t*, void*) { caught++; }
static struct sigaction rand_action(Rng& r, int& kind) {
  struct sigaction a; memset(&a, 0, sizeof a); kind = r.irange(0, 3);
  for (int s = 1; s < 32; s++) if (r.chance(0.15) && s != SIGSEGV && s != SIGABRT && s != SIGFPE && s != SIGILL && s != SIGBUS) sigaddset(&a.sa_mask, s);
  if (kind == 0) a.sa_handler = SIG_DFL; else if (kind == 1) a.sa_handler = SIG_IGN; else if (kind == 2) a.sa_handler = on_int; else { a.sa_sigaction = on_info; a.sa_flags |= SA_SIGINFO; }
  if (r.chance(0.5)) a.sa_flags |= SA_RESTART; if (r.chance(0.3)) a.sa_flags |= SA_NODEFER;
  return a;
}
static std::string act_diff(const struct sigaction& a, const struct sigaction& b) {
  if (((a.sa_flags ^ b.sa_flags) & (SA_SIGINFO | SA_RESTART | SA_NODEFER | SA_RESETHAND | SA_ONSTACK)) != 0) return strf("flags %x vs %x", a.sa_flags, b.sa_flags);
  if (a.sa_flags & SA_SIGINFO ? a.sa_sigaction != b.sa_sigaction : a.sa_handler != b.sa_handler) return "handler";
  if (!VF_TSAN) for (int s = 1; s < 32; s++) if (s != SIGKILL && s != SIGSTOP && sigismember(&a.sa_mask, s) != sigismember(&b.sa_mask, s)) return strf("signal %d in the mask", s);
  return "";
}
struct Disposition {     // installs a random disposition; restores the harness's own at the end
  struct sigaction mine, old; sigset_t mask; int kind; bool blocked = false;
  Disposition(Rng& r) { memset(&old, 0, sizeof old); memset(&mine, 0, sizeof mine); sigaction(SIGINT, nullptr, &old); struct sigaction a = rand_action(r, kind); sigaction(SIGINT, &a, nullptr); sigaction(SIGINT, nullptr, &mine); sigprocmask(SIG_SETMASK, nullptr, &mask); }
  void intact(const char* when) { struct sigaction now; memset(&now, 0, sizeof now); sigaction(SIGINT, nullptr, &now); std::string d = act_diff(mine, now); EV("disposition_checks"); CHECK(d.empty(), "handler_not_restored", "%s: the SIGINT disposition differs from the one before: %s", when, d.c_str());
    if (!d.empty()) sigaction(SIGINT, &mine, nullptr);
    sigset_t m; sigprocmask(SIG_SETMASK, nullptr, &m); bool same = true; for (int s = 1; s < 32; s++) if (sigismember(&m, s) != sigismember(&mask, s)) same = false; CHECK(same, "mask_changed", "%s: the signal mask changed", when); }
  ~Disposition() { sigaction(SIGINT, &old, nullptr); }
};
static Prob sig_problem(Rng& r) { GenOpt o; o.nmax = 8; o.mmax = 10; int t = r.irange(0, 9); return t < 5 ? gen_solvable(r, o) : t < 7 ? gen_strict(r, o) : t == 7 ? gen_pinf(r, o) : t == 8 ? gen_dinf(r, o) : gen_any(r, o); }
static std::string sdiff(const Snap& a, const Snap& b, bool pd = true, bool upd = true) { Snap c = b; if (!upd) c.info.rho_updates = a.info.rho_updates; return snap_diff(a, c, 0, pd); }
static void nap(double us) { struct timespec t{0, (long)(us * 1000)}; nanosleep(&t, nullptr); }

static void one_interrupt(Rng& r) {
  Prob pb = sig_problem(r); OSQPSettings st = rand_settings(r); bool direct = st.linsys_solver == OSQP_DIRECT_SOLVER;
  Model m{pb, st}; std::vector<Op> pre; int np = r.irange(0, 3); pre = gen_ops(r, m, direct ? (M_SOLVE | M_VEC | M_MAT | M_RHO | M_SET | M_WARM | M_COLD) : (M_SOLVE | M_VEC | M_MAT | M_RHO | M_WARM | M_COLD), np);
  Disposition D(r); G.note = prob_str(pb) + " | " + settings_str(st) + " | " + ops_str(pre) + strf("disposition %d", D.kind);
  Solver S(pb, st), T(pb, st); if (S.flag || T.flag) { EV("setup_failed"); return; }
  for (auto& o : pre) { I a = op_apply(S, o); if (o.k == SOLVE) D.intact("after an earlier solve"); I b = op_apply(T, o); if (a != b) { VIOL("twins_differ", "identical histories return different codes"); return; } if (a) { EV("history_step_failed"); return; } }
  D.intact("after setup and updates");
  // the twin is never interrupted: how many iterations would this solve take?
  I total = 0; Snap ref; { Hooked h(T.s, nullptr, [&](I) { total++; }); I f = T.solve(); ref = snap(T, f); } D.intact("after an uninterrupted solve");
  if (!total) return;
  I k = r.chance(0.2) ? 1 : r.chance(0.2) ? total : (I)(1 + r.next() % (uint64_t)total); if (r.chance(0.05)) k = total + 1;
  bool inpre = r.chance(0.5); int mode = r.irange(0, 9);          // 0: blocked by the caller; 1: a burst of signals
  G.note += strf(" | SIGINT %s solve %d of %d%s", inpre ? "before" : "after", (int)k, (int)total, mode == 0 ? " blocked" : mode == 1 ? " burst" : ""); SIG(G.note);
  if (mode == 0) { sigset_t b; sigemptyset(&b); sigaddset(&b, SIGINT); sigprocmask(SIG_BLOCK, &b, nullptr); sigprocmask(SIG_SETMASK, nullptr, &D.mask); }
  caught = 0; long raised = 0; I seen = 0, f; VF x0; 
  { auto go = [&]() { if (seen == k) { int c = mode == 1 ? 3 : 1; while (c--) { raise(SIGINT); raised++; } } };
    Hooked h(S.s, [&](const VF&, const VF&, I, I) { if (!inpre) go(); }, [&](I) { seen++; if (inpre) go(); });
    f = S.solve(); }
  D.intact("after the interrupted solve");
  if (mode == 0) { EV("blocked_runs"); if (raised && D.kind == 0) { struct sigaction ign; memset(&ign, 0, sizeof ign); ign.sa_handler = SIG_IGN; sigaction(SIGINT, &ign, nullptr); }   // a pending signal must not end the harness
    sigset_t b; sigemptyset(&b); sigaddset(&b, SIGINT); sigprocmask(SIG_UNBLOCK, &b, nullptr); sigprocmask(SIG_SETMASK, nullptr, &D.mask); if (D.kind == 0) sigaction(SIGINT, &D.mine, nullptr);
    std::string d = sdiff(ref, snap(S, f), false); CHECK(d.empty(), "blocked_signal_changed_solve", "a signal blocked by the caller changed the solve: %s", d.c_str());
    if (D.kind >= 2) CHECK(caught == (raised ? 1 : 0), "blocked_signal_lost", "the caller's handler ran %ld times for a signal it had blocked", (long)caught.load()); return; }
  CHECK(caught == 0, "foreign_handler_ran", "the caller's handler ran %ld times during the solve", (long)caught.load());
  if (!raised) { std::string d = sdiff(ref, snap(S, f), false); CHECK(d.empty(), "no_signal", "no signal was raised but the solve differs from its twin: %s", d.c_str()); EV("uninterrupted_solves"); return; }
  EV("interrupts");
  CHECK(S.status() == OSQP_SIGINT, "status", "status is %d (%s) after an interrupt at iteration %d of %d", (int)S.status(), S.s->info->status, (int)k, (int)total);
  CHECK(!strcmp(S.s->info->status, "interrupted"), "status_text", "status text is '%s'", S.s->info->status);
  CHECK(f != 0, "return_code", "osqp_solve returned 0 although it was interrupted");
  CHECK(seen <= k + 1, "not_prompt", "interrupted at iteration %d but %d iterations were performed", (int)k, (int)seen);
  if (S.status() != OSQP_SIGINT) return;
  // ---- later calls behave as if nothing had happened
#ifdef OSQP_ENABLE_PROFILING
  if (r.chance(0.3) && pb.m) { F u0 = S.s->info->update_time; VF q = m.pb.q; F rho = S.s->settings->rho; osqp_update_rho(S.s, (F)(rho * 2)); CHECK(S.s->info->update_time > u0, "update_not_timed", "the time of a penalty update after the interrupt is not accounted for"); osqp_update_rho(S.s, rho); EV("timed_updates"); }
#endif
  if (!direct) { I g = S.solve(); D.intact("after the following solve"); CHECK(S.status() != OSQP_SIGINT && S.status() != OSQP_UNSOLVED, "stuck", "the solve after the interrupted one ends with status %d", (int)S.status()); EV("later_solves"); if (!g && has_sol(S.status())) oracle_outcome(m.pb, m.st, S, "after", O_INFO); return; }
  Model m2 = m; std::vector<Op> post = gen_ops(r, m2, M_VEC | M_MAT | M_SET | M_COLD | M_RHO, r.irange(0, 2));
  F r0 = st.rho;
  if (r.chance(0.5)) {          // cold start at a known penalty, next to the twin that was never interrupted
    for (auto& o : post) { I a = op_apply(S, o), b = op_apply(T, o); if (a != b) { VIOL("resume_code", "an update after the interrupt returns a different code"); return; } if (a) return; }
    for (Solver* X : {&S, &T}) { osqp_cold_start(X->s); osqp_update_rho(X->s, r0); }
    I a = S.solve(), b = T.solve(); D.intact("after the solve following an interrupt");
    std::string d = sdiff(snap(T, b), snap(S, a), true, false); EV("later_solves"); EV("cold_twins"); CHECK(d.empty(), "interrupt_leaves_trace", "a cold-started solve after an interrupt differs from that of a twin that was not interrupted: %s", d.c_str());
  } else {                      // resume: same as a twin that stopped at the iteration limit k
    Solver W(pb, st); if (W.flag) return; for (auto& o : pre) op_apply(W, o);
    OSQPSettings s0 = *W.s->settings, lim = s0; lim.max_iter = seen; lim.polishing = 0; osqp_update_settings(W.s, &lim); W.solve();
    bool same = s0.adaptive_rho == 0 || (s0.adaptive_rho_interval && seen % s0.adaptive_rho_interval != 0); if (W.s->info->iter != seen || !has_sol(W.status()) || !same || W.s->settings->adaptive_rho_interval != S.s->settings->adaptive_rho_interval) { EV("resume_not_comparable"); return; }
    lim.max_iter = s0.max_iter; lim.polishing = s0.polishing; osqp_update_settings(W.s, &lim);
    for (auto& o : post) { I a = op_apply(S, o), b = op_apply(W, o); if (a != b) { VIOL("resume_code", "an update after the interrupt returns a different code"); return; } if (a) return; }
    I a = S.solve(), b = W.solve(); D.intact("after the resumed solve"); std::string d = sdiff(snap(W, b), snap(S, a)); EV("later_solves"); EV("resumed_twins"); CHECK(d.empty(), "interrupt_leaves_trace", "resuming after an interrupt at iteration %d differs from resuming after stopping there: %s", (int)seen, d.c_str());
  }
}
// signals at arbitrary instants, from another thread
static void async_interrupt(Rng& r) {
  Prob pb = sig_problem(r); OSQPSettings st = rand_settings(r); st.check_termination = 0; st.polishing = r.chance(0.4); st.max_iter = r.irange(50, 1500); if (st.linsys_solver != OSQP_DIRECT_SOLVER) st.cg_max_iter = 20;
  struct sigaction old, mine; memset(&mine, 0, sizeof mine); mine.sa_handler = on_int; sigaction(SIGINT, &mine, &old);
  { Solver S(pb, st); if (S.flag) { sigaction(SIGINT, &old, nullptr); return; } G.note = prob_str(pb) + " | " + settings_str(st) + " | asynchronous"; SIG(G.note);
    pthread_t me = pthread_self(); int rounds = r.irange(4, 12);
    for (int k = 0; k < rounds; k++) { caught = 0; std::atomic<int> sent{0}; uint64_t sd = r.next();
      std::thread th([&, sd] { Rng q(sd); volatile double w = 0; long spin = (long)q.logu(1, 200000); for (long t = 0; t < spin; t++) w = w + 1; pthread_kill(me, SIGINT); sent = 1; });
      I f = S.solve(); I sv = S.status(); th.join(); for (int t = 0; t < 1000 && !caught && sv != OSQP_SIGINT; t++) { if (t > 20) break; sched_yield(); }
      struct sigaction now; memset(&now, 0, sizeof now); sigaction(SIGINT, nullptr, &now); std::string d = act_diff(mine, now); EV("disposition_checks"); CHECK(d.empty(), "handler_not_restored", "after an asynchronous interrupt: %s", d.c_str());
      if (sv == OSQP_SIGINT) { EV("async_interrupted"); CHECK(f != 0, "return_code", "osqp_solve returned 0 although it was interrupted"); CHECK(caught == 0, "one_signal_counted_twice", "one signal both interrupted the solve and reached the caller's handler"); }
      else EV(caught ? "async_outside" : "async_after_last_poll"); }
    caught = 0; I f = S.solve(); (void)f; CHECK(S.status() != OSQP_SIGINT && S.status() != OSQP_UNSOLVED, "stuck", "a solve without any signal ends with status %d", (int)S.status()); EV("later_solves"); }
  sigaction(SIGINT, &old, nullptr);
}
// one interrupt while several solvers run in their own threads: all stop, the handler comes back
static void many_interrupt(Rng& r) {
  int n = r.irange(2, 5); Disposition D(r); std::vector<std::unique_ptr<Solver>> S; std::vector<Prob> P; std::vector<OSQPSettings> ST; G.note = strf("%d concurrent solves, disposition %d", n, D.kind);
  for (int i = 0; i < n; i++) { P.push_back(gen_strict(r)); OSQPSettings s = rand_settings(r, true); s.adaptive_rho = 0; s.check_termination = 0; s.max_iter = 400000; s.polishing = 0; ST.push_back(s); G.note += " " + prob_str(P.back()); }
  for (int i = 0; i < n; i++) { S.emplace_back(new Solver(P[i], ST[i])); if (S.back()->flag) { VIOL("setup", "setup failed"); return; } }
  SIG(G.note); std::atomic<int> in{0}; std::vector<I> fl(n); std::vector<std::atomic<long>> iters(n); for (auto& e : iters) e = 0; caught = 0;
  for (int i = 0; i < n; i++) hook_solve(S[i]->s, nullptr, [&, i](I) { if (++iters[i] == 3) in++; });
  std::vector<std::thread> th; for (int i = 0; i < n; i++) th.emplace_back([&, i] { fl[i] = S[i]->solve(); });
  for (long t = 0; in < n && t < 100000; t++) nap(50);
  bool fresh = in == n; for (auto& e : iters) if (e > 200000) fresh = false;      // all were well inside their solves when the signal was sent
  kill(getpid(), SIGINT); for (auto& t : th) t.join();
  if (!fresh) { for (int i = 0; i < n; i++) unhook_solve(S[i]->s); EV("concurrent_too_late"); return; }
  for (int i = 0; i < n; i++) { unhook_solve(S[i]->s); CHECK(S[i]->status() == OSQP_SIGINT && fl[i] != 0, "concurrent_not_interrupted", "solver %d of %d: status %d, return code %d after an interrupt while all were running", i, n, (int)S[i]->status(), (int)fl[i]); EV("interrupts"); }
  EV("concurrent_interrupts"); D.intact("after concurrent interrupted solves"); CHECK(caught == 0, "foreign_handler_ran", "the caller's handler ran during the solves");
  for (int i = 0; i < n; i++) { OSQPSettings s = ST[i]; s.max_iter = 30; osqp_update_settings(S[i]->s, &s); I f = S[i]->solve(); CHECK(!f && S[i]->status() != OSQP_SIGINT, "stuck", "the solve after a concurrent interrupt has status %d", (int)S[i]->status()); EV("later_solves"); }
  D.intact("after later solves");
}
PROPERTY(P19) { int t = r.irange(0, 19); if (t < 16) one_interrupt(r); else if (t < 19) async_interrupt(r); else many_interrupt(r); }

// ------------------------------------------------------------------ distinct solvers in distinct threads
struct Work { Prob pb; OSQPSettings st; std::vector<Op> ops; int extra = 0; bool own_setup = true; };
struct Trace { I setup = -1; std::vector<I> flags; std::vector<Snap> snaps; std::string misc; };
static void extras(int which, Trace& t) {
  if (which == 0) return;
  for (int e = -1; e < 14; e++) t.misc += osqp_error_message(e); t.misc += osqp_version(); t.misc += strf("%d", (int)osqp_capabilities());
  OSQPSettings s; osqp_set_default_settings(&s); t.misc += strf("%g %d", (double)s.rho, (int)s.max_iter);
  OSQPCscMatrix* I5 = OSQPCscMatrix_identity(5); if (I5) { t.misc += strf("%d", (int)I5->p[5]); OSQPCscMatrix_free(I5); }
  OSQPSolver* none = nullptr; t.misc += strf("%d", (int)osqp_solve(none));
}
static void run_work(Work& w, Solver* pre, Trace& t, uint64_t jit) {
  Rng q(jit); auto rest = [&] { if (!jit) return; int c = q.irange(0, 5); if (c == 0) sched_yield(); if (c == 1) nap(q.uni(1, 100)); if (c == 2) { volatile double v = 0; long n = (long)q.logu(1, 20000); for (long k = 0; k < n; k++) v = v + 1; } };
  Solver own; Solver* S = pre; rest();
  if (!pre) { t.setup = own.setup(w.pb, w.st); S = &own; } else t.setup = pre->flag;
  if (t.setup) return;
  for (auto& o : w.ops) { rest(); I f = op_apply(*S, o); t.flags.push_back(f); t.snaps.push_back(snap(*S, f)); if (o.k == SOLVE) extras(w.extra, t); if (f) break; }
  rest(); S->free_();
}
PROPERTY(P16) {
  int n = r.irange(2, 6); std::vector<Work> W(n); bool shared = r.chance(0.3); GenOpt o; o.nmax = 10; o.mmax = 14;
  for (int i = 0; i < n; i++) { Work& w = W[i]; if (shared && i) { w.pb = W[0].pb; } else w.pb = r.chance(0.2) ? gen_struct(r) : gen_any(r, o);
    w.st = shared && i && r.chance(0.5) ? W[0].st : rand_settings(r); if (w.st.max_iter > 500) w.st.max_iter = r.pick(VI{50, 200, 500}); if (r.chance(0.3)) w.st.polishing = 1;
    Model m{w.pb, w.st}; bool direct = w.st.linsys_solver == OSQP_DIRECT_SOLVER; w.ops.push_back(op_solve()); model_apply(m, w.ops[0]); auto more = gen_ops(r, m, direct ? M_SOLVE | M_VEC | M_MAT | M_RHO | M_SET | M_WARM | M_COLD : M_SOLVE | M_VEC | M_MAT | M_RHO | M_WARM | M_COLD, r.irange(1, 6)); w.ops.insert(w.ops.end(), more.begin(), more.end()); w.ops.push_back(op_solve());
    for (auto& p : w.ops) if (p.k == GETS) p.k = SOLVE; w.extra = r.chance(0.3); w.own_setup = r.chance(0.7);
    G.note += strf("[%s | %s | %s] ", prob_str(w.pb).c_str(), settings_str(w.st).c_str(), ops_str(w.ops).c_str()); }
  if (G.note.size() > 1500) G.note.resize(1500); SIG(G.note);
  std::vector<Trace> ref(n), got(n); 
  for (int i = 0; i < n; i++) run_work(W[i], nullptr, ref[i], 0);
  struct sigaction before, after; memset(&before, 0, sizeof before); memset(&after, 0, sizeof after); sigaction(SIGINT, nullptr, &before);
  int rounds = r.irange(1, 3);
  for (int k = 0; k < rounds; k++) { got.assign(n, Trace()); std::vector<std::unique_ptr<Solver>> pre(n); std::vector<uint64_t> jit(n); std::vector<Work> W2 = W;
    for (int i = 0; i < n; i++) { jit[i] = r.next() | 1; if (!W[i].own_setup) pre[i].reset(new Solver(W2[i].pb, W2[i].st)); }     // handed over to its thread after setup
    std::atomic<int> ready{0}; std::vector<std::thread> th;
    for (int i = 0; i < n; i++) th.emplace_back([&, i] { ready++; while (ready < n) sched_yield(); run_work(W2[i], pre[i].get(), got[i], jit[i]); });
    for (auto& t : th) t.join();
    EV("concurrent_rounds"); EV("threads", n);
    for (int i = 0; i < n; i++) { CHECK(ref[i].setup == got[i].setup && ref[i].flags == got[i].flags && ref[i].misc == got[i].misc, "codes_differ", "thread %d: return codes or helper results differ from the sequential run", i);
      for (size_t t = 0; t < std::min(ref[i].snaps.size(), got[i].snaps.size()); t++) { std::string d = snap_diff(ref[i].snaps[t], got[i].snaps[t]); EV("compared_calls"); if (!d.empty()) { CHECK(0, "results_differ", "thread %d, after call %d (%s): differs from the sequential run: %s", i, (int)t, op_str(W[i].ops[t]).c_str(), d.c_str()); break; } } }
    sigaction(SIGINT, nullptr, &after); std::string d = act_diff(before, after); CHECK(d.empty(), "handler_left_after_overlapping_solves", "after overlapping solves the SIGINT disposition is not what it was: %s", d.c_str()); sigaction(SIGINT, &before, nullptr); }
}
