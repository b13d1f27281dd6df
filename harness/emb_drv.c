/* Flat interface to one generated solver; compiled against the generated headers. PFX is the prefix, HDR the generated header. */
#include "osqp.h"
#include HDR
#include <string.h>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define S (&CAT(PFX, solver))
#define CAP 4096
static OSQPFloat b1[CAP], b2[CAP], b3[CAP]; static OSQPInt i1[CAP], i2[CAP];
static OSQPFloat* cv(OSQPFloat* b, const double* v, int n) { int i; if (!v) return 0; for (i = 0; i < n; i++) b[i] = (OSQPFloat)v[i]; for (; i < n + 8 && i < CAP; i++) b[i] = (OSQPFloat)1e77; return b; }
static OSQPInt* ci(OSQPInt* b, const int* v, int n) { int i; if (!v) return 0; for (i = 0; i < n; i++) b[i] = (OSQPInt)v[i]; return b; }
void vf_dims(int* d) { OSQPInt m, n; osqp_get_dimensions(S, &m, &n); d[0] = (int)m; d[1] = (int)n; d[2] = (int)sizeof(OSQPFloat); d[3] = (int)sizeof(OSQPInt); d[4] = (int)osqp_capabilities(); }
int vf_solve(void) { return (int)osqp_solve(S); }
int vf_warm(const double* x, const double* y, int n, int m) { return (int)osqp_warm_start(S, cv(b1, x, n), cv(b2, y, m)); }
void vf_cold(void) { osqp_cold_start(S); }
int vf_vec(const double* q, const double* l, const double* u, int n, int m) { return (int)osqp_update_data_vec(S, cv(b1, q, n), cv(b2, l, m), cv(b3, u, m)); }
#if OSQP_EMBEDDED_MODE != 1
int vf_mat(const double* px, const int* pi, int pn, int pc, const double* ax, const int* ai, int an, int ac) { return (int)osqp_update_data_mat(S, cv(b1, px, pc), ci(i1, pi, pc), pn, cv(b2, ax, ac), ci(i2, ai, ac), an); }
int vf_rho(double rho) { return (int)osqp_update_rho(S, (OSQPFloat)rho); }
#else
int vf_mat(const double* px, const int* pi, int pn, int pc, const double* ax, const int* ai, int an, int ac) { return -1; }
int vf_rho(double rho) { return -1; }
#endif
/* iv: warm_starting, max_iter, scaled_termination, check_termination, check_dualgap; fv: alpha, eps_abs, eps_rel, eps_prim_inf, eps_dual_inf */
int vf_set(const int* iv, const double* fv) {
  OSQPSettings t = *S->settings; t.warm_starting = iv[0]; t.max_iter = iv[1]; t.scaled_termination = iv[2]; t.check_termination = iv[3]; t.check_dualgap = iv[4];
  t.alpha = (OSQPFloat)fv[0]; t.eps_abs = (OSQPFloat)fv[1]; t.eps_rel = (OSQPFloat)fv[2]; t.eps_prim_inf = (OSQPFloat)fv[3]; t.eps_dual_inf = (OSQPFloat)fv[4]; return (int)osqp_update_settings(S, &t);
}
/* out: x[n] y[m] pc[m] dc[n]; info: status iter obj prim_res dual_res dual_obj gap rho_updates rho_estimate */
int vf_get(double* x, double* y, double* pc, double* dc, double* info, int own) {
  OSQPInt m, n, i; OSQPSolution t, *s = S->solution; int e = 0; osqp_get_dimensions(S, &m, &n);
  if (own) { t.x = b1; t.y = b2; t.prim_inf_cert = b3; t.dual_inf_cert = b3 + m; e = (int)osqp_get_solution(S, &t); s = &t; }
  for (i = 0; i < n; i++) { x[i] = s->x[i]; dc[i] = s->dual_inf_cert[i]; } for (i = 0; i < m; i++) { y[i] = s->y[i]; pc[i] = s->prim_inf_cert[i]; }
  info[0] = (double)S->info->status_val; info[1] = (double)S->info->iter; info[2] = S->info->obj_val; info[3] = S->info->prim_res; info[4] = S->info->dual_res; info[5] = S->info->dual_obj_val; info[6] = S->info->duality_gap; info[7] = (double)S->info->rho_updates; info[8] = S->info->rho_estimate;
  return e;
}
const char* vf_status(void) { return S->info->status; }
double vf_setting(int k) {
  OSQPSettings* t = S->settings; double v[] = {t->rho, t->sigma, t->alpha, t->eps_abs, t->eps_rel, t->eps_prim_inf, t->eps_dual_inf, t->adaptive_rho_tolerance, t->adaptive_rho_fraction, t->time_limit, t->delta, t->cg_tol_fraction,
    (double)t->max_iter, (double)t->scaling, (double)t->warm_starting, (double)t->check_termination, (double)t->adaptive_rho_interval, (double)t->rho_is_vec, (double)t->scaled_termination, (double)t->check_dualgap, (double)t->polish_refine_iter, (double)t->cg_max_iter, (double)t->cg_tol_reduction, (double)t->cg_precond, (double)t->adaptive_rho, (double)t->linsys_solver};
  return k < (int)(sizeof v / sizeof *v) ? v[k] : 0; }
/* any heap call from the generated solver or the embedded library lands here */
int vf_heap_calls;
void* __real_malloc(unsigned long); void* __wrap_malloc(unsigned long n) { vf_heap_calls++; return __real_malloc(n); }
void* __real_calloc(unsigned long, unsigned long); void* __wrap_calloc(unsigned long a, unsigned long b) { vf_heap_calls++; return __real_calloc(a, b); }
void* __real_realloc(void*, unsigned long); void* __wrap_realloc(void* p, unsigned long n) { vf_heap_calls++; return __real_realloc(p, n); }
void __real_free(void*); void __wrap_free(void* p) { vf_heap_calls++; __real_free(p); }
