/* Textbook up-looking sparse LDL' (elimination tree + column counts + row-by-row
   factorisation) behind the QDLDL function signatures. Upper-triangular CSC input, full diagonal. */
#include "qdldl.h"

QDLDL_int QDLDL_etree(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai,
                      QDLDL_int* work, QDLDL_int* Lnz, QDLDL_int* etree) {
  QDLDL_int j, p, i, sum = 0;
  for (j = 0; j < n; j++) {
    work[j] = -1; Lnz[j] = 0; etree[j] = -1;
    if (Ap[j] == Ap[j + 1]) return -1;
  }
  for (j = 0; j < n; j++) {
    work[j] = j;
    for (p = Ap[j]; p < Ap[j + 1]; p++) {
      i = Ai[p];
      if (i > j) return -1;
      while (work[i] != j) {
        if (etree[i] == -1) etree[i] = j;
        Lnz[i]++;
        work[i] = j;
        i = etree[i];
      }
    }
  }
  for (j = 0; j < n; j++) {
    if (sum > QDLDL_INT_MAX - Lnz[j]) return -2;
    sum += Lnz[j];
  }
  return sum;
}

QDLDL_int QDLDL_factor(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai, const QDLDL_float* Ax,
                       QDLDL_int* Lp, QDLDL_int* Li, QDLDL_float* Lx, QDLDL_float* D, QDLDL_float* Dinv,
                       const QDLDL_int* Lnz, const QDLDL_int* etree, QDLDL_bool* bwork, QDLDL_int* iwork,
                       QDLDL_float* fwork) {
  QDLDL_int *next = iwork, *stack = iwork + n, *path = iwork + 2 * n;
  QDLDL_int k, p, i, j, len, top, t, pos = 0;
  Lp[0] = 0;
  for (k = 0; k < n; k++) {
    Lp[k + 1] = Lp[k] + Lnz[k];
    next[k] = Lp[k]; fwork[k] = 0; bwork[k] = 0; D[k] = 0;
  }
  for (k = 0; k < n; k++) {
    QDLDL_float dk = 0;
    top = n;
    bwork[k] = 1;
    for (p = Ap[k]; p < Ap[k + 1]; p++) {
      i = Ai[p];
      if (i == k) { dk += Ax[p]; continue; }
      fwork[i] += Ax[p];
      for (len = 0; i != -1 && !bwork[i]; i = etree[i]) { path[len++] = i; bwork[i] = 1; }
      while (len > 0) stack[--top] = path[--len];
    }
    for (t = top; t < n; t++) {
      QDLDL_float y, lki;
      i = stack[t];
      y = fwork[i]; fwork[i] = 0;
      for (j = Lp[i]; j < next[i]; j++) fwork[Li[j]] -= Lx[j] * y;
      lki = y * Dinv[i];
      dk -= lki * y;
      Li[next[i]] = k; Lx[next[i]] = lki; next[i]++;
      bwork[i] = 0;
    }
    bwork[k] = 0;
    if (dk == 0) return -1;
    if (dk > 0) pos++;
    D[k] = dk;
    Dinv[k] = 1 / dk;
  }
  return pos;
}

void QDLDL_Lsolve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx, QDLDL_float* x) {
  QDLDL_int j, p;
  for (j = 0; j < n; j++)
    for (p = Lp[j]; p < Lp[j + 1]; p++) x[Li[p]] -= Lx[p] * x[j];
}
void QDLDL_Ltsolve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx, QDLDL_float* x) {
  QDLDL_int j, p;
  for (j = n - 1; j >= 0; j--)
    for (p = Lp[j]; p < Lp[j + 1]; p++) x[j] -= Lx[p] * x[Li[p]];
}
void QDLDL_solve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx,
                 const QDLDL_float* Dinv, QDLDL_float* x) {
  QDLDL_int j;
  QDLDL_Lsolve(n, Lp, Li, Lx, x);
  for (j = 0; j < n; j++) x[j] *= Dinv[j];
  QDLDL_Ltsolve(n, Lp, Li, Lx, x);
}
