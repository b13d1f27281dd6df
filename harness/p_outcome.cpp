#include "common.h"
static void note(const Prob& p, const OSQPSettings& s) { G.note = prob_str(p) + " | " + settings_str(s); if (G.verbose) G.note += " || " + prob_dump(p); SIG(p.fam + settings_str(s) + std::to_string(p.n) + "," + std::to_string(p.m)); }
// one fresh solve judged by the outcome oracle
static void outcome(Rng& r, int what, std::function<Prob(Rng&)> gen) {
  Prob pb = gen(r); OSQPSettings st = rand_settings(r); note(pb, st);
  Solver S(pb, st);
  if (S.flag) { if (S.flag == OSQP_NONCVX_ERROR && illcond(pb, st)) INCONC("penalty lost in rounding"); else VIOL("setup_failed", strf("osqp_setup returned %d on valid data", (int)S.flag)); return; }
  EV("solves"); I f = S.solve();
  if (f) { if (st.polishing && S.s->info->status_polish == OSQP_POLISH_LINSYS_ERROR) EV("polish_linsys_error"); else { if (illcond(pb, st, S.s->settings->rho)) INCONC("penalty lost in rounding"); else VIOL("solve_failed", strf("osqp_solve returned %d", (int)f)); return; } }
  oracle_outcome(pb, st, S, "solve", what);
}
PROPERTY(P01) { outcome(r, O_OPT, [](Rng& r) { return r.chance(0.75) ? gen_solvable(r) : gen_struct(r); }); }
PROPERTY(P02) { outcome(r, O_INFO, [](Rng& r) { return gen_any(r); }); }
PROPERTY(P03) { outcome(r, O_PINF, [](Rng& r) { return gen_pinf(r); }); }
PROPERTY(P04) { outcome(r, O_DINF, [](Rng& r) { return gen_dinf(r); }); }
