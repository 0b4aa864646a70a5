// C05: termination within the limits, for hostile options and scales.
#include "common.h"
#include "sanitize.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C05";
const char* kRule =
    "Any finite convex data (scaled by up to 1e+-8), guesses and arbitrary "
    "option values; the solve runs in a process with a CPU limit and must "
    "return a defined flag or throw std::runtime_error, with counters inside "
    "the (sanitised) limits and the iteration-limit flag exactly at a limit. "
    "Non-trivial: at least two Newton steps.";
}
static double Wild(Src& s) {
  switch (s.Pick({2, 2, 2, 1, 1})) {
    case 0: return s.Real(2);
    case 1: return s.LogUniform(1e-20, 1e20);
    case 2: return -s.LogUniform(1e-20, 1e20);
    case 3: return 0;
    default:
      switch (s.Int(0, 4)) {
        case 0: return 1.7e308;
        case 1: return 5e-324;
        case 2: return HUGE_VAL;
        case 3: return -HUGE_VAL;
        default: return std::nan("");
      }
  }
}
static int WildInt(Src& s) {
  switch (s.Pick({3, 1, 1, 1})) {
    case 0: return s.Int(1, 8);
    case 1: return s.Signed(1000);
    case 2: return -2147483647 - 1;
    default: return 2147483647;
  }
}
static void Run(Src& s, Case& c) {
  Mixed m = GenMixed(s, {3, 4, 2, 2}, 3);
  if (s.Chance(1, 3)) {  // scale the problem
    const double R = s.Chance(1, 8) ? 1e150 : 1e8;
    const double a = s.LogUniform(1 / R, R), b = s.LogUniform(1 / R, R),
                 d = s.LogUniform(1 / R, R);
    if (m.p.mpc) {
      Ocp& o = m.p.ocp;
      for (auto* v : {&o.Q, &o.R, &o.S, &o.q, &o.r})
        for (auto& x : *v) x *= a;
      for (auto* v : {&o.E, &o.L, &o.d})
        for (auto& x : *v) x *= b;
      for (auto* v : {&o.c})
        for (auto& x : *v) x *= d;
      o.x0 *= d;
      o.z.resize(0);
      m.p = FromOcp(o);
    } else {
      Qp& q = m.p.qp;
      q.H *= a;
      q.f *= a;
      q.A *= b;
      q.b *= b;
      q.G *= d;
      q.h *= d;
      if (s.Chance(1, 2)) q.f *= s.LogUniform(1e-8, 1e8);
      if (s.Chance(1, 2)) q.b *= s.LogUniform(1e-8, 1e8);
      q.z.resize(0);
    }
    c.Label("scaled");
  }
  AlgorithmParameters op = GenOptions(s);
  if (s.Chance(1, 2)) {
    c.Label("wild options");
    double* f[] = {&op.sigma0,  &op.sigma_max,     &op.sigma_min,
                   &op.alpha,   &op.beta,          &op.eta,
                   &op.delta,   &op.gamma,         &op.abs_tol,
                   &op.rel_tol, &op.stall_tol,     &op.infeas_tol,
                   &op.inner_tol_max, &op.inner_tol_min};
    for (double* x : f)
      if (s.Chance(1, 5)) *x = Wild(s);
    int* g[] = {&op.max_newton_iters, &op.max_prox_iters, &op.max_inner_iters,
                &op.max_linesearch_iters};
    for (int* x : g)
      if (s.Chance(1, 5)) *x = WildInt(s);
    // Otherwise the run is legitimately as long as it was asked to be.
    int unlimited = 0;
    for (int* x : g) unlimited += *x > 1000;
    if (op.max_newton_iters > 1000 && op.max_prox_iters > 1000)
      op.max_newton_iters = 1000;
    if (op.max_newton_iters > 1000 && op.max_inner_iters > 1000)
      op.max_inner_iters = 1000;
    if (op.max_linesearch_iters > 1000) op.max_linesearch_iters = 1000;
    if (op.max_newton_iters > 100000) op.max_newton_iters = 20000;
    // With a tolerance that is not a number nothing ever is small enough, and
    // no step is short enough.
    bool nan = false;
    for (double* x : f) nan = nan || std::isnan(*x);
    if (nan) {
      c.Label("NaN options");
      for (int* x : g)
        if (*x > 100) *x = 100;
    }
    if (op.max_newton_iters > 1000 && op.max_linesearch_iters > 100)
      op.max_linesearch_iters = 100;
  }
  op.display_level = fbstab::Display(s.Pick({6, 1, 1, 1}));
  AlgorithmParameters sn = Sanitize(op);
  Start x = RandomStart(s, m.p.qp);
  if (s.Chance(1, 6)) {
    const double r = s.LogUniform(1e-8, 1e8);
    x.z *= r;
    x.l *= r;
    x.v *= r;
  }
  m.p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  auto sol = MakeSolver(m.p);
  sol->Update(op);
  Out o = sol->Solve(x);
  NoteOut(c, o);
  c.nontrivial = o.newton > 1;
  c.Label(o.threw ? "threw" : FlagName(o.eflag));
  if (o.threw) {
    VF_CHECK(o.runtime_error, "threw something that is not a runtime_error: %s",
             o.what.c_str());
    return;
  }
  switch (o.eflag) {
    case ExitFlag::SUCCESS:
    case ExitFlag::MAXITERATIONS:
    case ExitFlag::PRIMAL_INFEASIBLE:
    case ExitFlag::DUAL_INFEASIBLE:
    case ExitFlag::PRIMAL_DUAL_INFEASIBLE:
    case ExitFlag::DIVERGENCE:
      break;
    default:
      Fail("undefined exit flag %d", int(o.eflag));
  }
  VF_CHECK(o.newton >= 0 && o.newton <= sn.max_newton_iters,
           "%d Newton iterations, limit %d", o.newton, sn.max_newton_iters);
  VF_CHECK(o.prox >= 0 && o.prox <= sn.max_prox_iters,
           "%d proximal iterations, limit %d", o.prox, sn.max_prox_iters);
  VF_CHECK(double(o.newton) <= (double(o.prox) + 1) * sn.max_inner_iters,
           "%d Newton iterations in at most %d subproblems of at most %d each",
           o.newton, o.prox + 1, sn.max_inner_iters);
  const bool at_limit =
      o.newton >= sn.max_newton_iters || o.prox >= sn.max_prox_iters;
  if (o.eflag == ExitFlag::MAXITERATIONS)
    VF_CHECK(at_limit, "iteration-limit flag after %d/%d Newton and %d/%d "
             "proximal iterations", o.newton, sn.max_newton_iters, o.prox,
             sn.max_prox_iters);
  if (o.prox >= sn.max_prox_iters)
    VF_CHECK(o.eflag == ExitFlag::MAXITERATIONS,
             "proximal limit reached but flag is %s", FlagName(o.eflag));
  if (o.newton >= sn.max_newton_iters)
    VF_CHECK(o.eflag == ExitFlag::MAXITERATIONS,
             "Newton limit reached but flag is %s", FlagName(o.eflag));
  if (o.eflag == ExitFlag::MAXITERATIONS) c.Label(
      o.newton >= sn.max_newton_iters ? "newton limit" : "prox limit");
}
namespace vf {
std::vector<Property> kProperties = {{"run", Run, 140000, 3000000}};
}
