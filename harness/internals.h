// The few views of internal state the monitors use.
#pragma once
#include "common.h"
struct ScalingView { bool on = false; L c = 1, cinv = 1; VL D, E, Dinv, Einv; };
ScalingView scaling_of(const OSQPSolver* s);
VF work_vec_z(const OSQPSolver* s);      // scaled z iterate
VF work_vec_x(const OSQPSolver* s);
VF work_vec_y(const OSQPSolver* s);
// the problem data as the solver currently holds it (scaled)
Csc data_P(const OSQPSolver* s);
Csc data_A(const OSQPSolver* s);
VF data_q(const OSQPSolver* s);
VF data_l(const OSQPSolver* s);
VF data_u(const OSQPSolver* s);
void scaled_residuals(const OSQPSolver* s, F& prim, F& dual);   // as of the last info update
VF rho_of(const OSQPSolver* s);          // per-constraint penalties
// Observe every linear solve of the ADMM iteration: called after the real solver, with the
// right-hand side it was given and what it returned.
typedef std::function<void(const VF& rhs, const VF& sol, I admm_iter, I ret)> LinHook;
typedef std::function<void(I admm_iter)> LinPre;
void hook_solve(OSQPSolver* s, LinHook post, LinPre pre = nullptr);
void unhook_solve(OSQPSolver* s);
struct Hooked { OSQPSolver* s; Hooked(OSQPSolver* s, LinHook h, LinPre p = nullptr) : s(s) { hook_solve(s, h, p); } ~Hooked() { unhook_solve(s); } };
// Observe the updates of the linear system: called before the real one (1: matrices, 2: penalties)
typedef std::function<void(int)> UpdHook;
void hook_updates(OSQPSolver* s, UpdHook h);
void unhook_updates(OSQPSolver* s);
