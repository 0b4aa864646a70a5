// Independent statement of the admissible option ranges.
#pragma once
#include "api.h"
namespace vf {
inline double Clamp(double x, double lo, double hi) {
  return x < lo ? lo : (x > hi ? hi : x);
}
inline AlgorithmParameters Sanitize(AlgorithmParameters p) {
  const double sigma0 = p.sigma0 < 1e-10 ? 1e-10 : p.sigma0;
  p.sigma_max = Clamp(p.sigma_max, 1e-6, 1e2);
  p.sigma_min = Clamp(p.sigma_min, 1e-13, 1e-8);
  p.sigma0 = Clamp(sigma0, p.sigma_min, p.sigma_max);
  p.alpha = Clamp(p.alpha, 0.001, 0.999);
  p.beta = Clamp(p.beta, 0.1, 0.99);
  p.eta = Clamp(p.eta, 1e-12, 0.499);
  p.delta = Clamp(p.delta, 0.0001, 0.99);
  p.gamma = Clamp(p.gamma, 0.001, 0.9);
  p.abs_tol = p.abs_tol < 1e-14 ? 1e-14 : p.abs_tol;
  p.rel_tol = p.rel_tol < 0 ? 0 : p.rel_tol;
  p.stall_tol = p.stall_tol < 1e-14 ? 1e-14 : p.stall_tol;
  p.infeas_tol = p.infeas_tol < 1e-14 ? 1e-14 : p.infeas_tol;
  p.inner_tol_max = Clamp(p.inner_tol_max, 1e-8, 1e2);
  p.inner_tol_min = Clamp(p.inner_tol_min, 1e-14, 1e-2);
  if (p.inner_tol_min > p.inner_tol_max) p.inner_tol_min = p.inner_tol_max;
  for (int* x : {&p.max_newton_iters, &p.max_prox_iters, &p.max_inner_iters,
                 &p.max_linesearch_iters})
    if (*x < 1) *x = 1;
  return p;
}
}  // namespace vf
