// Problem types, generators and the independent oracle.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <string>
#include <vector>

#include "engine.h"

namespace vf {

using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using LVec = Eigen::Matrix<long double, Eigen::Dynamic, 1>;
using LMat = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;

std::string Str(const Mat& m);
inline std::string StrV(const Vec& v) { return Str(v.transpose()); }

// min 1/2 z'Hz + f'z  s.t. Gz = h, Az <= b.
struct Qp {
  int nz = 0, nl = 0, nv = 0;
  Mat H, G, A;
  Vec f, h, b;
  // A primal-dual solution (if known by construction).
  Vec z, l, v;
  // Strong convexity of the objective by construction.
  bool strongly_convex = false;
  bool exact = false;  // integer data: f, h, b were computed without rounding
  void Describe(Case& c, const char* name = "QP") const;
  double ForcingNorm() const;
};

// Linear-quadratic optimal control problem.
struct Ocp {
  int N = 0, nx = 0, nu = 0, nc = 0;
  std::vector<Mat> Q, R, S, q, r, A, B, c, E, L, d;
  Vec x0;
  int nz() const { return (nx + nu) * (N + 1); }
  int nl() const { return nx * (N + 1); }
  int nv() const { return nc * (N + 1); }
  // The equivalent dense QP, with z = (x0,u0,x1,u1,...), the equality rows
  // -x(0) = -x0 and A x + B u - x(+) = -c, and the inequality rows
  // E x + L u <= -d.
  Qp Dense() const;
  Vec z, l, v;  // known solution
  bool strongly_convex = false, exact = false;
  void Describe(Case& c, const char* name = "OCP") const;
};

// Independent evaluation of the KKT conditions in extended precision.
struct Kkt {
  LVec rz;    // Hz + f + G'l + A'v
  LVec rl;    // h - Gz
  LVec y;     // b - Az
  long double rz_norm, rl_norm;
  long double min_norm;  // || min(y, v) ||
  long double pnr;       // norm of the penalized natural residual
  LVec rv;               // its complementarity component
  long double scale;     // magnitude of the terms, for rounding allowances
};
// y_used: margins to use in the complementarity block (b - Az if null).
Kkt EvalKkt(const Qp& p, const Vec& z, const Vec& l, const Vec& v,
            double alpha, const Vec* y_used = nullptr);
double Objective(const Qp& p, const Vec& z);

// ---- generators
struct GenOpts {
  int max_nz = 8, max_nl = 4, max_nv = 10;
  bool allow_real = true;      // non-integer data
  bool force_strong = false;   // strongly convex only
  bool fixed = false;          // the maximal sizes exactly
};
double GenEntry(Src& s, bool integer);
Mat GenMat(Src& s, int r, int c, bool integer, int zero_in_8 = 2);
Vec GenVec(Src& s, int n, bool integer, int zero_in_8 = 1);
// PSD matrix; *strong is set if it is positive definite with a margin.
Mat GenPsd(Src& s, int n, bool integer, bool force_strong, bool* strong);
// A QP with a known primal-dual solution.
Qp GenSolvable(Src& s, const GenOpts& o);
// A QP with no feasible point by construction (Farkas certificate exists).
Qp GenPrimalInfeasible(Src& s, const GenOpts& o, Vec* cert_l, Vec* cert_v);
// A feasible QP, unbounded below along *dir.
Qp GenUnbounded(Src& s, const GenOpts& o, Vec* dir);
struct OcpOpts {
  int max_N = 6, max_nx = 4, max_nu = 3, max_nc = 5;
  bool allow_real = true, force_strong = false, fixed = false;
};
Ocp GenOcp(Src& s, const OcpOpts& o);
// An OCP with contradictory constraints / a feasible OCP with a descent ray.
Ocp GenOcpInfeasible(Src& s, const OcpOpts& o);
Ocp GenOcpUnbounded(Src& s, const OcpOpts& o);
// Data with no particular structure or solution (only sizes are consistent).
Qp GenAnyQp(Src& s, const GenOpts& o);
Ocp GenAnyOcp(Src& s, const OcpOpts& o);

}  // namespace vf
