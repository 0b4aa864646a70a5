// Stand-in for the QDLDL C API (https://github.com/osqp/qdldl), which is not
// installed here: same functions, same contract on the sizes of the arrays.
// All the memory a caller has to provide is touched, so that an array that is
// too short shows up under AddressSanitizer.
#pragma once
#include <vector>

#include "tools/qdldl/qdldl_types.h"

// Sum of the column counts of L, -1 if the matrix is not upper triangular or
// has an empty column. work, Lnz, etree: n entries.
inline QDLDL_int QDLDL_etree(const QDLDL_int n, const QDLDL_int* Ap,
                             const QDLDL_int* Ai, QDLDL_int* work,
                             QDLDL_int* Lnz, QDLDL_int* etree) {
  for (int i = 0; i < n; i++) {
    work[i] = 0;
    Lnz[i] = 0;
    etree[i] = -1;
  }
  for (int i = 0; i < n; i++)
    if (Ap[i] == Ap[i + 1]) return -1;
  for (int j = 0; j < n; j++) {
    work[j] = j;
    for (int p = Ap[j]; p < Ap[j + 1]; p++) {
      int i = Ai[p];
      if (i > j) return -1;
      while (work[i] != j) {
        if (etree[i] == -1) etree[i] = j;
        Lnz[i]++;
        work[i] = j;
        i = etree[i];
      }
    }
  }
  QDLDL_int sum = 0;
  for (int i = 0; i < n; i++) sum += Lnz[i];
  return sum;
}

// Lp: n+1 entries, Li, Lx: sum of Lnz, D, Dinv: n, bwork: n, iwork: 3n,
// fwork: n. Returns the number of positive pivots, -1 on a zero pivot.
inline QDLDL_int QDLDL_factor(const QDLDL_int n, const QDLDL_int* Ap,
                              const QDLDL_int* Ai, const QDLDL_float* Ax,
                              QDLDL_int* Lp, QDLDL_int* Li, QDLDL_float* Lx,
                              QDLDL_float* D, QDLDL_float* Dinv,
                              const QDLDL_int* Lnz, const QDLDL_int* etree,
                              QDLDL_bool* bwork, QDLDL_int* iwork,
                              QDLDL_float* fwork) {
  QDLDL_int* y_idx = iwork;
  QDLDL_int* elim = iwork + n;
  QDLDL_int* next = iwork + 2 * n;
  QDLDL_int positive = 0;
  Lp[0] = 0;
  for (int i = 0; i < n; i++) {
    Lp[i + 1] = Lp[i] + Lnz[i];
    bwork[i] = 0;
    fwork[i] = 0;
    D[i] = 0;
    y_idx[i] = elim[i] = 0;
    next[i] = Lp[i];
  }
  for (int i = 0; i < Lp[n]; i++) {
    Li[i] = -1;
    Lx[i] = 0;
  }
  for (int k = 0; k < n; k++) {
    int ny = 0;
    for (int p = Ap[k]; p < Ap[k + 1]; p++) {
      const int b = Ai[p];
      if (b == k) {
        D[k] = Ax[p];
        continue;
      }
      fwork[b] = Ax[p];
      int i = b, ne = 0;
      while (i != -1 && i < k && !bwork[i]) {
        bwork[i] = 1;
        elim[ne++] = i;
        i = etree[i];
      }
      while (ne) y_idx[ny++] = elim[--ne];
    }
    for (int t = ny - 1; t >= 0; t--) {
      const int c = y_idx[t];
      const double y = fwork[c];
      for (int j = Lp[c]; j < next[c]; j++) fwork[Li[j]] -= Lx[j] * y;
      Li[next[c]] = k;
      Lx[next[c]] = y * Dinv[c];
      D[k] -= y * Lx[next[c]];
      next[c]++;
      fwork[c] = 0;
      bwork[c] = 0;
    }
    if (D[k] == 0) return -1;
    if (D[k] > 0) positive++;
    Dinv[k] = 1 / D[k];
  }
  return positive;
}

inline void QDLDL_solve(const QDLDL_int n, const QDLDL_int* Lp,
                        const QDLDL_int* Li, const QDLDL_float* Lx,
                        const QDLDL_float* Dinv, QDLDL_float* x) {
  for (int i = 0; i < n; i++)
    for (int j = Lp[i]; j < Lp[i + 1]; j++) x[Li[j]] -= Lx[j] * x[i];
  for (int i = 0; i < n; i++) x[i] *= Dinv[i];
  for (int i = n - 1; i >= 0; i--)
    for (int j = Lp[i]; j < Lp[i + 1]; j++) x[i] -= Lx[j] * x[Li[j]];
}
