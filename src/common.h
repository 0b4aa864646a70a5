// Shared by the end-to-end checks: a mixed population of problems.
#pragma once
#include <cstdlib>

#include "api.h"

namespace vf {

enum class Kind { SOLVABLE, ANY, INFEASIBLE, UNBOUNDED };
inline const char* KindName(Kind k) {
  switch (k) {
    case Kind::SOLVABLE: return "solvable";
    case Kind::ANY: return "any";
    case Kind::INFEASIBLE: return "infeasible";
    default: return "unbounded";
  }
}

// Mostly small problems, sometimes larger ones.
inline GenOpts Sizes(Src& s, bool force_strong = false) {
  GenOpts g;
  g.force_strong = force_strong;
  switch (s.Pick({170, 24, 3, 3})) {
    case 0: break;
    case 1: g.max_nz = 20; g.max_nl = 8; g.max_nv = 30; break;
    case 2: g.max_nz = 45; g.max_nl = 20; g.max_nv = 70; break;
    case 3: g.max_nz = 3; g.max_nl = 2; g.max_nv = 120; break;
  }
  return g;
}
inline OcpOpts OcpSizes(Src& s, bool force_strong = false) {
  OcpOpts o;
  o.force_strong = force_strong;
  switch (s.Pick({170, 24, 3, 3})) {
    case 0: break;
    case 1: o.max_N = 12; o.max_nx = 6; o.max_nu = 6; o.max_nc = 9; break;
    case 2: o.max_N = 40; o.max_nx = 3; o.max_nu = 2; o.max_nc = 4; break;
    case 3: o.max_N = 3; o.max_nx = 10; o.max_nu = 10; o.max_nc = 24; break;
  }
  return o;
}

inline Problem GenKind(Src& s, Kind k, const GenOpts& g) {
  Vec a, b;
  switch (k) {
    case Kind::SOLVABLE: return FromQp(GenSolvable(s, g));
    case Kind::ANY: return FromQp(GenAnyQp(s, g));
    case Kind::INFEASIBLE: return FromQp(GenPrimalInfeasible(s, g, &a, &b));
    default: return FromQp(GenUnbounded(s, g, &a));
  }
}
inline Problem GenKind(Src& s, Kind k, const OcpOpts& o) {
  switch (k) {
    case Kind::SOLVABLE: return FromOcp(GenOcp(s, o));
    case Kind::ANY: return FromOcp(GenAnyOcp(s, o));
    case Kind::INFEASIBLE: return FromOcp(GenOcpInfeasible(s, o));
    default: return FromOcp(GenOcpUnbounded(s, o));
  }
}
// Bounds far away, as used for "no bound": moves inactive constraints out.
inline void Loosen(Src& s, Problem* p) {
  const int nc = p->mpc ? p->ocp.nc : 1;
  for (int i = 0; i < p->qp.nv; i++) {
    const bool active =
        p->qp.v(i) > 0 || p->qp.b(i) - p->qp.A.row(i).dot(p->qp.z) < 0.1;
    if (active || !s.Chance(2, 3)) continue;
    const double far = std::ldexp(1.0, s.Int(4, 34));
    p->qp.b(i) += far;
    if (p->mpc) p->ocp.d[i / nc](i % nc) -= far;
  }
}
struct Mixed {
  Problem p;
  Kind kind;
};
// w: weights of solvable, any, infeasible, unbounded.
inline Mixed GenMixed(Src& s, std::initializer_list<int> w, int mpc_in_8,
                      bool strong = false, bool far = true) {
  Mixed m;
  m.kind = Kind(s.Pick(w));
  if (s.Chance(mpc_in_8, 8))
    m.p = GenKind(s, m.kind, OcpSizes(s, strong));
  else
    m.p = GenKind(s, m.kind, Sizes(s, strong));
  if (far && m.kind == Kind::SOLVABLE && s.Chance(1, 40)) Loosen(s, &m.p);
  return m;
}

inline AlgorithmParameters Quiet(AlgorithmParameters p) {
  p.display_level = fbstab::Display::OFF;
  return p;
}
inline AlgorithmParameters Defaults(const Problem& p) {
  return Quiet(p.mpc ? MpcDefaults() : DenseDefaults());
}
inline AlgorithmParameters Reliable(const Problem& p) {
  return Quiet(p.mpc ? MpcReliable() : DenseReliable());
}
// A large proximal weight: the outer iteration converges slowly, in many steps.
inline void Slow(Src& s, AlgorithmParameters* op) {
  op->sigma_max = 100;
  op->sigma0 = s.LogUniform(0.03, 20);
  op->max_prox_iters = s.Int(10, 200);
  op->max_newton_iters = s.Int(30, 800);
}
inline bool Infeasible(ExitFlag e) {
  return e == ExitFlag::PRIMAL_INFEASIBLE || e == ExitFlag::DUAL_INFEASIBLE ||
         e == ExitFlag::PRIMAL_DUAL_INFEASIBLE;
}
inline double InfNorm(const Vec& v) {
  return v.size() ? v.cwiseAbs().maxCoeff() : 0.0;
}
inline double Scale(const Start& x) {
  return std::max(std::max(InfNorm(x.z), InfNorm(x.l)), InfNorm(x.v));
}

// With a singular Hessian and a tiny proximal parameter the Newton systems are
// so ill conditioned that intermediate iterates, and with them the rounding
// errors of the incrementally updated margins, have no useful bound.
inline bool MarginsBounded(const Qp& q, const AlgorithmParameters& op) {
  return q.strongly_convex || std::min(op.sigma0, op.sigma_max) >= 5e-6;
}
// Rounding allowance for quantities evaluated at a returned point. The solver
// updates the margins incrementally, so their error is relative to the largest
// intermediate iterate, which is of order residual/sigma when the Hessian is
// singular.
inline double Slack(const Qp& q, const Start& x, const AlgorithmParameters& op,
                    double final_scale, double initial_residual) {
  double s = 1e-12 * final_scale + 1e-12 * Scale(x) *
                 (1 + q.A.cwiseAbs().maxCoeff()) + 1e-13 * InfNorm(q.b);
  if (!q.strongly_convex)
    s += 8e-15 * (1 + q.A.cwiseAbs().rowwise().sum().maxCoeff()) *
         (1 + initial_residual) /
         std::max(std::min(op.sigma0, op.sigma_max), 1e-13);
  return s;
}

// The documented certificate conditions, in extended precision.
inline void Certificate(const Qp& q, const Out& o, double tol) {
  LVec z = o.z.cast<long double>(), l = o.l.cast<long double>(),
       v = o.v.cast<long double>();
  const double eps = 1e-13;
  auto inf = [](const LVec& x) {
    return x.size() ? x.cwiseAbs().maxCoeff() : 0.0L;
  };
  if (o.eflag == ExitFlag::PRIMAL_INFEASIBLE ||
      o.eflag == ExitFlag::PRIMAL_DUAL_INFEASIBLE) {
    const long double u = std::max(inf(v), inf(l));
    VF_CHECK(u > 0, "primal infeasible with zero multipliers");
    LVec t = q.A.transpose().cast<long double>() * v;
    LVec ta = q.A.transpose().cwiseAbs().cast<long double>() * v.cwiseAbs();
    long double p2 = q.b.cast<long double>().dot(v);
    long double p2a = q.b.cwiseAbs().cast<long double>().dot(v.cwiseAbs());
    if (q.nl) {
      t += q.G.transpose().cast<long double>() * l;
      ta += q.G.transpose().cwiseAbs().cast<long double>() * l.cwiseAbs();
      p2 += q.h.cast<long double>().dot(l);
      p2a += q.h.cwiseAbs().cast<long double>().dot(l.cwiseAbs());
    }
    VF_CHECK(inf(t) <= tol * u * (1 + 1e-9) + eps * inf(ta),
             "|G'l + A'v| = %Lg exceeds %g * %Lg", inf(t), tol, u);
    VF_CHECK(p2 < eps * p2a, "h'l + b'v = %Lg is not negative", p2);
    VF_CHECK(v.minCoeff() >= -tol * u * (1 + 1e-9),
             "inequality multiplier %Lg is negative (|.| = %Lg)", v.minCoeff(),
             u);
  }
  if (o.eflag == ExitFlag::DUAL_INFEASIBLE ||
      o.eflag == ExitFlag::PRIMAL_DUAL_INFEASIBLE) {
    const long double w = inf(z);
    VF_CHECK(w > 0, "dual infeasible with a zero direction");
    auto chk = [&](const Mat& M, const char* n, bool sign) {
      if (!M.rows()) return;
      LVec t = M.cast<long double>() * z;
      LVec ta = M.cwiseAbs().cast<long double>() * z.cwiseAbs();
      long double val = sign ? t.maxCoeff() : inf(t);
      VF_CHECK(val <= tol * w * (1 + 1e-9) + eps * inf(ta),
               "%s along the direction is %Lg, exceeds %g * %Lg", n, val, tol,
               w);
    };
    chk(q.H, "|Hz|", false);
    chk(q.G, "|Gz|", false);
    chk(q.A, "max Az", true);
    long double d4 = q.f.cast<long double>().dot(z);
    long double d4a = q.f.cwiseAbs().cast<long double>().dot(z.cwiseAbs());
    VF_CHECK(d4 < eps * d4a, "f'z = %Lg is not negative", d4);
  }
}
}  // namespace vf
