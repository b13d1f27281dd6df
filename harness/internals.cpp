#include "internals.h"
extern "C" {
#include "types.h"
#include "algebra_vector.h"
#include "algebra_matrix.h"
}
static VF grab(const OSQPVectorf* v) { I n = OSQPVectorf_length(v); VF r((size_t)n); if (n) OSQPVectorf_to_raw(r.data(), v); return r; }
ScalingView scaling_of(const OSQPSolver* s) {
  ScalingView v; I n = s->work->data->n, m = s->work->data->m;
  v.D.assign(n, 1); v.E.assign(m, 1); v.Dinv = v.D; v.Einv = v.E;
  if (s->settings->scaling && s->work->scaling) {
    v.on = true; v.c = s->work->scaling->c; v.cinv = s->work->scaling->cinv;
    VF d = grab(s->work->scaling->D), e = grab(s->work->scaling->E), di = grab(s->work->scaling->Dinv), ei = grab(s->work->scaling->Einv);
    for (I i = 0; i < n; i++) v.D[i] = d[i], v.Dinv[i] = di[i];
    for (I i = 0; i < m; i++) v.E[i] = e[i], v.Einv[i] = ei[i];
  }
  return v;
}
VF work_vec_z(const OSQPSolver* s) { return grab(s->work->z); }
VF work_vec_x(const OSQPSolver* s) { return grab(s->work->x); }
VF work_vec_y(const OSQPSolver* s) { return grab(s->work->y); }
static Csc grabM(const OSQPMatrix* M) {
  Csc c; c.m = OSQPMatrix_get_m(M); c.n = OSQPMatrix_get_n(M); I nz = OSQPMatrix_get_nz(M);
  I* p = OSQPMatrix_get_p(M); c.p.assign(p, p + c.n + 1);
  if (nz) { F* x = OSQPMatrix_get_x(M); I* i = OSQPMatrix_get_i(M); c.x.assign(x, x + nz); c.i.assign(i, i + nz); }
  return c;
}
Csc data_P(const OSQPSolver* s) { return grabM(s->work->data->P); }
Csc data_A(const OSQPSolver* s) { return grabM(s->work->data->A); }
VF data_q(const OSQPSolver* s) { return grab(s->work->data->q); }
VF data_l(const OSQPSolver* s) { return grab(s->work->data->l); }
VF data_u(const OSQPSolver* s) { return grab(s->work->data->u); }
VF rho_of(const OSQPSolver* s) { if (s->work->rho_vec) return grab(s->work->rho_vec); return VF(s->work->data->m, s->settings->rho); }

void scaled_residuals(const OSQPSolver* s, F& p, F& d) { p = s->work->scaled_prim_res; d = s->work->scaled_dual_res; }

struct HookState { OSQPInt (*real)(LinSysSolver*, OSQPVectorf*, OSQPInt); LinHook post; LinPre pre; };
static std::map<LinSysSolver*, HookState>& hooks() { static auto* m = new std::map<LinSysSolver*, HookState>(); return *m; }
static OSQPInt hooked_solve(LinSysSolver* self, OSQPVectorf* b, OSQPInt it) {
  HookState& h = hooks()[self];
  VF rhs; if (h.post) rhs = grab(b);
  if (h.pre) h.pre(it);
  OSQPInt ret = h.real(self, b, it);
  if (h.post) h.post(rhs, grab(b), it, ret);
  return ret;
}
void hook_solve(OSQPSolver* s, LinHook post, LinPre pre) {
  LinSysSolver* l = s->work->linsys_solver; unhook_solve(s);
  hooks()[l] = HookState{l->solve, post, pre}; l->solve = &hooked_solve;
}
void unhook_solve(OSQPSolver* s) {
  LinSysSolver* l = s->work->linsys_solver; auto it = hooks().find(l);
  if (it != hooks().end()) { l->solve = it->second.real; hooks().erase(it); }
}

struct UpdState { OSQPInt (*mat)(LinSysSolver*, const OSQPMatrix*, const OSQPInt*, OSQPInt, const OSQPMatrix*, const OSQPInt*, OSQPInt); OSQPInt (*rho)(LinSysSolver*, const OSQPVectorf*, OSQPFloat); UpdHook h; };
static std::map<LinSysSolver*, UpdState>& uhooks() { static auto* m = new std::map<LinSysSolver*, UpdState>(); return *m; }
static OSQPInt hooked_mat(LinSysSolver* l, const OSQPMatrix* P, const OSQPInt* Pi, OSQPInt Pn, const OSQPMatrix* A, const OSQPInt* Ai, OSQPInt An) { auto& u = uhooks()[l]; u.h(1); return u.mat(l, P, Pi, Pn, A, Ai, An); }
static OSQPInt hooked_rho(LinSysSolver* l, const OSQPVectorf* r, OSQPFloat sc) { auto& u = uhooks()[l]; u.h(2); return u.rho(l, r, sc); }
void hook_updates(OSQPSolver* s, UpdHook h) { LinSysSolver* l = s->work->linsys_solver; unhook_updates(s); uhooks()[l] = UpdState{l->update_matrices, l->update_rho_vec, h}; l->update_matrices = &hooked_mat; l->update_rho_vec = &hooked_rho; }
void unhook_updates(OSQPSolver* s) { LinSysSolver* l = s->work->linsys_solver; auto it = uhooks().find(l); if (it != uhooks().end()) { l->update_matrices = it->second.mat; l->update_rho_vec = it->second.rho; uhooks().erase(it); } }
