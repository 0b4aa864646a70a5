// C07: the OCP solver against the dense solver on the explicit QP.
#include "path.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C07";
const char* kRule =
    "Optimal control problems (time-varying, cross terms, any sizes), guesses "
    "and options, often with a Newton or proximal budget, solved by both "
    "solvers. Verdict, counts and all vectors must agree within a tolerance "
    "set by how much the dense solver itself reacts to perturbations of the "
    "data by a few rounding errors; cases where those change its verdict or "
    "counts are discarded. Non-trivial: at least one Newton step.";
}
static void Agree(Src& s, Case& c, const Ocp& ocp, AlgorithmParameters op,
                  const Start& x) {
  Problem p = FromOcp(ocp);
  ocp.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  auto mpc = MakeMpc(ocp.N, ocp.nx, ocp.nu, ocp.nc);
  mpc->SetProblem(ocp);
  mpc->Update(op);
  auto den = MakeDense(p.qp.nz, p.qp.nl, p.qp.nv);
  den->SetProblem(p.qp);
  den->Update(op);
  Out a = mpc->Solve(x), b = den->Solve(x);
  NoteOut(c, a);
  NoteOut(c, b);
  c.nontrivial = b.newton > 0;
  c.Label(b.threw ? "threw" : FlagName(b.eflag));
  // How sensitive is the dense solver here?
  const uint64_t ps = s.Below(1u << 30);
  const Sens se = Sensitivity(ps, p.qp, x, op, b);
  const double sens = se.x, sr = se.r;
  if (!se.stable) {
    c.Label("path sensitive to rounding");
    throw Discard();
  }
  // A disagreement counts only if many more perturbations do not explain it.
  auto explained = [&](double diff) {
    const Sens u = Sensitivity(ps, p.qp, x, op, b, 60);
    return !u.stable || diff <= 3e3 * u.x;
  };
  if (!SamePath(a, b)) {
    if (explained(1e300)) throw Discard();
    Fail("MPC: %s\ndense: %s", OutStr(a).c_str(), OutStr(b).c_str());
  }
  if (a.threw) return;
  const double scale = 1 + InfNorm(All(b));
  const double allow = 1e-9 * scale + 3e3 * sens;
  if (allow > 1e-4 * scale) {
    c.Label("iterates sensitive to rounding");
    throw Discard();
  }
  const double d = Diff(a, b);
  if (d > 1e-11 * scale) c.Label("difference above 1e-11");
  if (d > allow && explained(d)) {
    c.Label("difference explained by rounding");
    throw Discard();
  }
  VF_CHECK(d <= allow, "vectors differ by %g (allowance %g)\nMPC: %s\ndense: %s",
           d, allow, OutStr(a).c_str(), OutStr(b).c_str());
  const double rscale = 1 + InfNorm(p.qp.f) + InfNorm(p.qp.b) + scale * 10;
  VF_CHECK(std::fabs(a.residual - b.residual) <= 1e-8 * rscale + 3e3 * sr +
                                                     30 * allow,
           "residuals %g and %g differ", a.residual, b.residual);
  VF_CHECK(std::fabs(a.initial_residual - b.initial_residual) <=
               1e-11 * (rscale + b.initial_residual),
           "initial residuals %.17g and %.17g", a.initial_residual,
           b.initial_residual);
}
static Ocp AnyKind(Src& s, const OcpOpts& sz) {
  switch (s.Pick({5, 2, 1, 1})) {
    case 0: return GenOcp(s, sz);
    case 1: return GenAnyOcp(s, sz);
    case 2: return GenOcpInfeasible(s, sz);
    default: return GenOcpUnbounded(s, sz);
  }
}
// The same iterates, for a limited number of steps and with tolerances far
// above the rounding errors.
static void Budget(Src& s, Case& c) {
  Ocp ocp = AnyKind(s, OcpSizes(s, s.Chance(2, 3)));
  AlgorithmParameters op = BudgetOptions(s, FromOcp(ocp));
  Agree(s, c, ocp, op, RandomStart(s, FromOcp(ocp).qp));
}
// The same verdict and optimal point with the stock options.
static void Stock(Src& s, Case& c) {
  OcpOpts sz;
  sz.force_strong = true;
  if (s.Chance(1, 8)) sz = OcpSizes(s, true);
  Ocp ocp = s.Chance(1, 5) ? GenOcpInfeasible(s, sz) : GenOcp(s, sz);
  AlgorithmParameters op =
      Quiet(s.Chance(1, 2) ? MpcDefaults() : MpcReliable());
  op.max_newton_iters = 800;
  op.max_prox_iters = 200;
  Problem p = FromOcp(ocp);
  Start x = RandomStart(s, p.qp);
  ocp.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  auto mpc = MakeMpc(ocp.N, ocp.nx, ocp.nu, ocp.nc);
  mpc->SetProblem(ocp);
  mpc->Update(op);
  auto den = MakeDense(p.qp.nz, p.qp.nl, p.qp.nv);
  den->SetProblem(p.qp);
  den->Update(op);
  Out a = mpc->Solve(x), b = den->Solve(x);
  NoteOut(c, a);
  NoteOut(c, b);
  c.nontrivial = b.newton > 0;
  VF_CHECK(!a.threw && !b.threw, "MPC: %s\ndense: %s", OutStr(a).c_str(),
           OutStr(b).c_str());
  if (a.eflag == ExitFlag::MAXITERATIONS ||
      b.eflag == ExitFlag::MAXITERATIONS) {
    c.Label("iteration limit");
    throw Discard();
  }
  c.Label(FlagName(b.eflag));
  VF_CHECK(a.eflag == b.eflag, "verdicts differ\nMPC: %s\ndense: %s",
           OutStr(a).c_str(), OutStr(b).c_str());
  if (a.eflag != ExitFlag::SUCCESS) return;
  // Strong monotonicity: m |za - zb|^2 <= <r_a - r_b, x_a - x_b> for the
  // residuals r, so small residuals mean close primal points.
  const double m = p.qp.H.selfadjointView<Eigen::Lower>().eigenvalues()(0);
  const double tol =
      2 * (op.abs_tol + op.rel_tol * (1 + p.qp.ForcingNorm())) / op.alpha +
      1e-9;
  const double gap = (a.z - b.z).norm() + (a.l - b.l).norm() +
                     (a.v - b.v).norm() + (a.y - b.y).norm() +
                     a.v.norm() + b.v.norm() + a.y.norm() + b.y.norm();
  const double d = (a.z - b.z).norm();
  VF_CHECK(m * d * d <= 4 * tol * (gap + 1),
           "primal solutions differ by %g\nMPC: %s\ndense: %s", d,
           OutStr(a).c_str(), OutStr(b).c_str());
}
namespace vf {
std::vector<Property> kProperties = {{"budget", Budget, 25000, 300000},
                                     {"stock_options", Stock, 20000, 250000}};
}
