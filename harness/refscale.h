// Extended-precision model of the problem equilibration: with the column norms of P, and with those of
// its stored upper triangle only (what the library does: a known finding). Also used only to notice norms sitting on the scaling threshold, where two
// correct computations may branch differently.
#pragma once
#include "common.h"
struct RefScale {
  VL D, E; L c = 1; bool ambiguous = false;
  L lim(L v) {
    const L lo = OSQP_MIN_SCALING, hi = OSQP_MAX_SCALING;
    if (v > 0 && (fabsl(v - lo) < 1e-9L * lo)) ambiguous = true;
    if (v < lo) return 1; return v > hi ? hi : v;
  }
  RefScale(const Prob& p, I iters, bool full = false) : D(p.n, 1), E(p.m, 1) {
    for (I it = 0; it < iters; it++) {
      VL dn(p.n, 0), en(p.m, 0);
      for (I j = 0; j < p.n; j++) for (I k = p.P.p[j]; k < p.P.p[j + 1]; k++) { I i = p.P.i[k]; L v = fabsl(c * D[i] * D[j] * p.P.x[k]); dn[j] = std::max(dn[j], v); if (full) dn[i] = std::max(dn[i], v); }
      for (I j = 0; j < p.n; j++) for (I k = p.A.p[j]; k < p.A.p[j + 1]; k++) { I i = p.A.i[k]; L v = fabsl(E[i] * D[j] * p.A.x[k]); dn[j] = std::max(dn[j], v); en[i] = std::max(en[i], v); }
      for (I j = 0; j < p.n; j++) D[j] /= sqrtl(lim(dn[j]));
      for (I i = 0; i < p.m; i++) E[i] /= sqrtl(lim(en[i]));
      VL pn(p.n, 0); L s = 0, nq = 0;
      for (I j = 0; j < p.n; j++) for (I k = p.P.p[j]; k < p.P.p[j + 1]; k++) { I i = p.P.i[k]; L v = fabsl(c * D[i] * D[j] * p.P.x[k]); pn[j] = std::max(pn[j], v); if (full) pn[i] = std::max(pn[i], v); }
      for (I j = 0; j < p.n; j++) { s += pn[j]; nq = std::max(nq, fabsl(c * D[j] * p.q[j])); }
      c /= lim(std::max(s / p.n, lim(nq)));
    }
  }
};
