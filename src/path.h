// Comparing runs of the solver step by step: how far two runs that should be
// the same are allowed to differ is measured by perturbing the data by a few
// rounding errors.
#pragma once
#include "common.h"

namespace vf {
inline Vec All(const Out& o) {
  Vec a(o.z.size() + o.l.size() + 2 * o.v.size());
  a << o.z, o.l, o.v, o.y;
  return a;
}
inline double Diff(const Out& a, const Out& b) {
  Vec d = All(a) - All(b);
  return d.size() ? d.cwiseAbs().maxCoeff() : 0;
}
inline bool SamePath(const Out& a, const Out& b) {
  return a.threw == b.threw &&
         (a.threw || (a.eflag == b.eflag && a.newton == b.newton &&
                      a.prox == b.prox));
}
inline void Wiggle(Src& s, Mat* x, double eps) {
  for (int i = 0; i < x->size(); i++)
    x->data()[i] += eps * (1 + std::fabs(x->data()[i])) * s.Signed(4);
}
inline void Wiggle(Src& s, Vec* x, double eps) {
  for (int i = 0; i < x->size(); i++)
    (*x)(i) += eps * (1 + std::fabs((*x)(i))) * s.Signed(4);
}
struct Sens {
  bool stable = true;  // verdict and counts survive the perturbations
  double x = 0, r = 0;  // largest change of the vectors / the residual
};
inline Sens Sensitivity(uint64_t seed, const Qp& q0, const Start& x0,
                        const AlgorithmParameters& op, const Out& base,
                        int n = 3) {
  Sens r;
  auto den = MakeDense(q0.nz, q0.nl, q0.nv);
  den->Update(op);
  for (int t = 0; t < n; t++) {
    Src w(seed * 64 + t);
    Qp q = q0;
    Start y = x0;
    const double eps = t < 3 ? 1e-15 : t % 2 ? 3e-16 : 1e-14;
    for (int i = 0; i < q.H.rows(); i++)
      for (int j = 0; j <= i; j++) {
        q.H(i, j) += eps * (1 + std::fabs(q.H(i, j))) * w.Signed(4);
        q.H(j, i) = q.H(i, j);
      }
    Wiggle(w, &q.G, eps);
    Wiggle(w, &q.A, eps);
    Wiggle(w, &q.f, eps);
    Wiggle(w, &q.h, eps);
    Wiggle(w, &q.b, eps);
    Wiggle(w, &y.z, eps);
    Wiggle(w, &y.l, eps);
    Wiggle(w, &y.v, eps);
    den->SetProblem(q);
    Out d = den->Solve(y);
    if (!SamePath(base, d)) {
      r.stable = false;
      return r;
    }
    if (d.threw) continue;
    r.x = std::max(r.x, Diff(base, d));
    r.r = std::max(r.r, std::fabs(base.residual - d.residual));
  }
  return r;
}
// Options with tolerances far above rounding, and a Newton budget.
inline AlgorithmParameters BudgetOptions(Src& s, const Problem& p) {
  AlgorithmParameters op = s.Chance(1, 2) ? Defaults(p) : Reliable(p);
  op.sigma0 = s.LogUniform(1e-3, 1.0);
  op.sigma_max = 1;
  op.abs_tol = s.LogUniform(1e-7, 1e-3);
  op.inner_tol_min = s.LogUniform(1e-7, 1e-3);
  op.inner_tol_max = s.LogUniform(1e-2, 1e2);
  op.stall_tol = 1e-8;
  if (s.Chance(1, 3)) op.alpha = 0.001 + 0.998 * s.Unit();
  if (s.Chance(1, 4)) op.infeas_tol = s.LogUniform(1e-8, 1e-3);
  op.nonmonotone_linesearch = s.Chance(1, 2);
  op.max_newton_iters = s.Chance(1, 2) ? s.Int(1, 8) : s.Int(8, 30);
  if (s.Chance(1, 4)) op.max_prox_iters = s.Int(1, 4);
  if (s.Chance(1, 4)) op.max_inner_iters = s.Int(1, 4);
  return op;
}
}  // namespace vf
