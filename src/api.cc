#include "api.h"

#include <cstring>
#include <sstream>

namespace vf {

bool SameBits(const Vec& a, const Vec& b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); i++) {
    if (std::isnan(a(i)) && std::isnan(b(i))) continue;
    if (!(a(i) == b(i))) return false;
  }
  return true;
}
static bool SameD(double a, double b) {
  return (std::isnan(a) && std::isnan(b)) || a == b;
}
bool SameOut(const Out& a, const Out& b) {
  return a.threw == b.threw && a.eflag == b.eflag &&
         SameD(a.residual, b.residual) &&
         SameD(a.initial_residual, b.initial_residual) &&
         a.newton == b.newton && a.prox == b.prox && SameBits(a.z, b.z) &&
         SameBits(a.l, b.l) && SameBits(a.v, b.v) && SameBits(a.y, b.y);
}
const char* FlagName(ExitFlag e) {
  switch (e) {
    case ExitFlag::SUCCESS: return "SUCCESS";
    case ExitFlag::DIVERGENCE: return "DIVERGENCE";
    case ExitFlag::MAXITERATIONS: return "MAXITERATIONS";
    case ExitFlag::PRIMAL_INFEASIBLE: return "PRIMAL_INFEASIBLE";
    case ExitFlag::DUAL_INFEASIBLE: return "DUAL_INFEASIBLE";
    case ExitFlag::PRIMAL_DUAL_INFEASIBLE: return "PRIMAL_DUAL_INFEASIBLE";
  }
  return "UNKNOWN";
}
std::string OutStr(const Out& o) {
  std::ostringstream s;
  s.precision(17);
  if (o.threw) {
    s << "threw '" << o.what << "'";
    return s.str();
  }
  s << FlagName(o.eflag) << " residual=" << o.residual
    << " initial_residual=" << o.initial_residual << " newton=" << o.newton
    << " prox=" << o.prox << " z=" << StrV(o.z) << " l=" << StrV(o.l)
    << " v=" << StrV(o.v) << " y=" << StrV(o.y);
  return s.str();
}
std::string OptStr(const AlgorithmParameters& p) {
  std::ostringstream s;
  s.precision(17);
  s << "sigma0=" << p.sigma0 << " sigma_max=" << p.sigma_max
    << " sigma_min=" << p.sigma_min << " alpha=" << p.alpha
    << " beta=" << p.beta << " eta=" << p.eta << " delta=" << p.delta
    << " gamma=" << p.gamma << " abs_tol=" << p.abs_tol
    << " rel_tol=" << p.rel_tol << " stall_tol=" << p.stall_tol
    << " infeas_tol=" << p.infeas_tol << " inner_tol_max=" << p.inner_tol_max
    << " inner_tol_min=" << p.inner_tol_min
    << " max_newton_iters=" << p.max_newton_iters
    << " max_prox_iters=" << p.max_prox_iters
    << " max_inner_iters=" << p.max_inner_iters
    << " max_linesearch_iters=" << p.max_linesearch_iters
    << " check_feasibility=" << p.check_feasibility
    << " nonmonotone_linesearch=" << p.nonmonotone_linesearch
    << " display_level=" << int(p.display_level);
  return s.str();
}

Problem FromQp(const Qp& q) {
  Problem p;
  p.qp = q;
  return p;
}
Problem FromOcp(const Ocp& o) {
  Problem p;
  p.mpc = true;
  p.ocp = o;
  p.qp = o.Dense();
  return p;
}
std::unique_ptr<AnySolver> MakeSolver(const Problem& p) {
  if (p.mpc) {
    auto s = MakeMpc(p.ocp.N, p.ocp.nx, p.ocp.nu, p.ocp.nc);
    s->SetProblem(p.ocp);
    return s;
  }
  auto s = MakeDense(p.qp.nz, p.qp.nl, p.qp.nv);
  s->SetProblem(p.qp);
  return s;
}
Start Zeros(const Qp& p) {
  return {Vec::Zero(p.nz), Vec::Zero(p.nl), Vec::Zero(p.nv), Vec::Zero(p.nv)};
}
Start RandomStart(Src& s, const Qp& p) {
  Start x = Zeros(p);
  const int kind = s.Pick({3, 3, 2, 1, p.z.size() ? 2 : 0});
  if (kind == 0) return x;
  if (kind == 4) {  // near (or at) the known solution
    x.z = p.z;
    x.l = p.l;
    x.v = p.v;
    const double eps = s.Chance(1, 3) ? 0.0 : s.LogUniform(1e-8, 1.0);
    for (int i = 0; i < p.nz; i++) x.z(i) += eps * s.Real(1);
    for (int i = 0; i < p.nl; i++) x.l(i) += eps * s.Real(1);
    for (int i = 0; i < p.nv; i++) x.v(i) += eps * s.Real(1);
    return x;
  }
  const double r = kind == 1 ? 2.0 : kind == 2 ? 20.0 : 1e3;
  for (int i = 0; i < p.nz; i++) x.z(i) = s.Real(r);
  for (int i = 0; i < p.nl; i++) x.l(i) = s.Real(r);
  for (int i = 0; i < p.nv; i++) x.v(i) = s.Real(r);
  for (int i = 0; i < p.nv; i++) x.y(i) = s.Real(r);
  return x;
}
void NoteStart(Case& c, const Start& x) {
  if (!c.verbose) return;
  c.Note("start z=%s l=%s v=%s y=%s", StrV(x.z).c_str(), StrV(x.l).c_str(),
         StrV(x.v).c_str(), StrV(x.y).c_str());
}
void NoteOut(Case& c, const Out& o) {
  if (c.verbose) c.Note("result %s", OutStr(o).c_str());
}

AlgorithmParameters GenOptions(Src& s) {
  AlgorithmParameters p = s.Chance(1, 4) ? DenseReliable() : DenseDefaults();
  p.display_level = fbstab::Display::OFF;
  if (s.Chance(1, 4)) p.sigma0 = s.LogUniform(1e-10, s.Chance(1, 6) ? 1e2 : 1e-2);
  if (s.Chance(1, 4)) p.sigma_max = s.LogUniform(1e-6, 1e2);
  if (s.Chance(1, 4)) p.sigma_min = s.LogUniform(1e-13, 1e-8);
  if (s.Chance(1, 4)) p.alpha = s.Unit() * 0.998 + 0.001;
  if (s.Chance(1, 4)) p.beta = 0.1 + 0.88 * s.Unit();
  if (s.Chance(1, 4)) p.eta = s.LogUniform(1e-12, 0.49);
  if (s.Chance(1, 4)) p.delta = s.LogUniform(1e-4, 0.99);
  if (s.Chance(1, 4)) p.gamma = s.LogUniform(1e-3, 0.9);
  if (s.Chance(1, 3)) p.abs_tol = s.LogUniform(1e-12, s.Chance(1, 8) ? 1e2 : 1e-1);
  if (s.Chance(1, 3)) p.rel_tol = s.Chance(1, 3) ? 0.0 : s.LogUniform(1e-12, 1e-1);
  if (s.Chance(1, 4)) p.stall_tol = s.LogUniform(1e-14, s.Chance(1, 6) ? 1e3 : 1e-2);
  if (s.Chance(1, 4)) p.infeas_tol = s.LogUniform(1e-14, s.Chance(1, 8) ? 10 : 1e-2);
  if (s.Chance(1, 4)) p.inner_tol_max = s.LogUniform(1e-8, 1e2);
  if (s.Chance(1, 4))
    p.inner_tol_min = s.LogUniform(1e-14, std::min(1e-2, p.inner_tol_max));
  if (p.inner_tol_min > p.inner_tol_max) p.inner_tol_min = p.inner_tol_max;
  auto limit = [&](int* x, int few, int lo, int hi) {
    if (s.Chance(1, 4)) *x = s.Chance(1, 4) ? s.Int(lo, hi) : s.Int(1, few);
  };
  limit(&p.max_newton_iters, 12, 30, 600);
  limit(&p.max_prox_iters, 6, 20, 200);
  limit(&p.max_inner_iters, 6, 30, 90);
  limit(&p.max_linesearch_iters, 6, 20, 60);
  if (s.Chance(1, 8)) {  // many small outer steps
    p.sigma_max = 100;
    p.sigma0 = s.LogUniform(0.03, 30);
    p.max_prox_iters = s.Int(20, 200);
    p.max_newton_iters = s.Int(100, 1000);
  }
  p.check_feasibility = !s.Chance(1, 4);
  p.nonmonotone_linesearch = s.Chance(1, 2);
  return p;
}

}  // namespace vf
