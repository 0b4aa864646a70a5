// C04: infeasible and unbounded problems are detected and classified.
#include "common.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C04";
const char* kRule =
    "Strongly convex problems with contradictory constraints (Farkas "
    "certificate by construction) under default options, and feasible problems "
    "with a descent ray (by construction) under reliable options, dense and "
    "OCP, from random guesses: the verdict must be the right one; iteration "
    "limits are retried with generous limits and batches bound how often they "
    "occur. Non-trivial: at least one Newton step.";
}
enum Mode { INF_DENSE, INF_MPC, UNB_DENSE, UNB_MPC,  };

// Integer dynamics grow quickly along the horizon: keep it short.
static OcpOpts MpcSizes(Src& s, bool strong) {
  OcpOpts o;
  o.force_strong = strong;
  if (s.Chance(1, 8)) {
    o.max_nx = o.max_nu = 6;
    o.max_nc = 12;
    o.max_N = 4;
  }
  return o;
}
static Problem Gen(Src& s, Mode m) {
  Vec a, b;
  switch (m) {
    case INF_DENSE:
      return FromQp(GenPrimalInfeasible(s, Sizes(s, true), &a, &b));
    case INF_MPC: return FromOcp(GenOcpInfeasible(s, MpcSizes(s, true)));
    case UNB_DENSE: return FromQp(GenUnbounded(s, Sizes(s), &a));
    default: return FromOcp(GenOcpUnbounded(s, MpcSizes(s, false)));
  }
}
static bool Unb(Mode m) { return m == UNB_DENSE || m == UNB_MPC; }
static void One(Src& s, Case& c, Mode m) {
  Problem p = Gen(s, m);
  auto sol = MakeSolver(p);
  AlgorithmParameters op = Unb(m) ? Reliable(p) : Defaults(p);
  sol->Update(op);
  Start x = RandomStart(s, p.qp);
  p.Describe(c);
  NoteStart(c, x);
  Out o = sol->Solve(x);
  NoteOut(c, o);
  c.nontrivial = o.newton > 0;
  c.Label(o.threw ? "threw" : FlagName(o.eflag));
  VF_CHECK(!o.threw, "solver threw: %s", o.what.c_str());
  if (o.eflag == ExitFlag::MAXITERATIONS) {
    op.max_newton_iters = 5000;
    op.max_prox_iters = 500;
    sol->Update(op);
    o = sol->Solve(x);
    c.Label(std::string("generous limits: ") +
            (o.threw ? "threw" : FlagName(o.eflag)));
    NoteOut(c, o);
    if (!o.threw && o.eflag == ExitFlag::MAXITERATIONS) return;
  }
  const ExitFlag want =
      Unb(m) ? ExitFlag::DUAL_INFEASIBLE : ExitFlag::PRIMAL_INFEASIBLE;
  VF_CHECK(!o.threw && o.eflag == want, "%s problem ended with %s",
           Unb(m) ? "an unbounded" : "an infeasible", OutStr(o).c_str());
}
static void Batch(Src& seed, Case& c, Mode m, int n, int allowed) {
  int bad = 0, steps = 0;
  Src s(seed.Below(1ull << 40));  // many choices: keep the replay short
  for (int i = 0; i < n; i++) {
    Problem p = Gen(s, m);
    auto sol = MakeSolver(p);
    AlgorithmParameters op = Unb(m) ? Reliable(p) : Defaults(p);
    sol->Update(op);
    Out o = sol->Solve(RandomStart(s, p.qp));
    steps += o.newton;
    if (o.threw || !Infeasible(o.eflag)) bad++;
  }
  c.Label("problems", n);
  c.Label("no verdict", bad);
  c.nontrivial = steps > 0;
  c.Note("%d problems, %d without a verdict within the stock limits", n, bad);
  VF_CHECK(bad <= allowed, "%d of %d problems got no verdict", bad, n);
}
// Contradictory constraints with a merely convex objective: any infeasibility
// verdict is admissible, success is not.
static void Weak(Src& s, Case& c) {
  Vec a, b;
  Problem p = FromQp(GenPrimalInfeasible(s, Sizes(s), &a, &b));
  auto sol = MakeSolver(p);
  sol->Update(Reliable(p));
  Start x = RandomStart(s, p.qp);
  p.Describe(c);
  NoteStart(c, x);
  Out o = sol->Solve(x);
  NoteOut(c, o);
  c.nontrivial = o.newton > 0;
  c.Label(o.threw ? "threw" : FlagName(o.eflag));
  VF_CHECK(!o.threw, "solver threw: %s", o.what.c_str());
  VF_CHECK(Infeasible(o.eflag) || o.eflag == ExitFlag::MAXITERATIONS,
           "an infeasible problem ended with %s", OutStr(o).c_str());
  if (p.qp.strongly_convex)
    VF_CHECK(o.eflag != ExitFlag::DUAL_INFEASIBLE,
             "a bounded problem is reported dual infeasible");
}
// Unbounded problems under other options than the stock ones, and with costs
// of other magnitude: the descent ray comes in short or long steps.
static void Options(Src& s, Case& c) {
  Vec ray;
  GenOpts g;
  g.max_nz = s.Int(1, 6);
  g.max_nl = s.Int(0, 3);
  g.max_nv = s.Int(1, 8);
  Qp q = GenUnbounded(s, g, &ray);
  q.f *= std::ldexp(1.0, -s.Int(0, 14));
  Problem p = FromQp(q);
  AlgorithmParameters op = DenseDefaults();
  op.display_level = fbstab::Display::OFF;
  op.sigma_max = 1;
  op.sigma0 = s.LogUniform(1e-6, 1e-3);
  op.abs_tol = s.LogUniform(1e-12, 1e-9);
  op.rel_tol = 0;
  op.stall_tol = 1e-14;
  op.infeas_tol = s.LogUniform(1e-8, 1e-5);
  op.max_newton_iters = 20000;
  op.max_prox_iters = 4000;
  auto sol = MakeSolver(p);
  sol->Update(op);
  Start x = RandomStart(s, p.qp);
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  Out o = sol->Solve(x);
  NoteOut(c, o);
  c.nontrivial = o.newton > 0;
  c.Label(o.threw ? "threw" : FlagName(o.eflag));
  if (!o.threw && o.eflag == ExitFlag::MAXITERATIONS) return;
  VF_CHECK(!o.threw && o.eflag == ExitFlag::DUAL_INFEASIBLE,
           "an unbounded problem ended with %s", OutStr(o).c_str());
}
// Large proximal weights: the certificate only emerges after many outer steps.
static Problem SlowProblem(Src& s, bool* unbounded, AlgorithmParameters* o) {
  Vec a, b;
  GenOpts g;
  g.max_nz = s.Int(1, 6);
  g.max_nl = s.Int(0, 3);
  g.max_nv = s.Int(1, 8);
  const bool unb = *unbounded = s.Chance(1, 2);
  g.force_strong = !unb;
  Problem p = FromQp(unb ? GenUnbounded(s, g, &a)
                         : GenPrimalInfeasible(s, g, &a, &b));
  AlgorithmParameters& op = *o;
  op = DenseDefaults();
  op.display_level = fbstab::Display::OFF;
  op.sigma_max = 1000;
  op.sigma0 = s.LogUniform(1e-3, 30);
  op.abs_tol = s.LogUniform(1e-12, 1e-9);
  op.rel_tol = 0;
  op.stall_tol = 1e-14;
  op.infeas_tol = s.LogUniform(1e-8, 1e-4);
  op.max_newton_iters = 10000;
  op.max_prox_iters = 1500;
  return p;
}
static void SlowBatch(Src& seed, Case& c) {
  int bad = 0, steps = 0;
  Src s(seed.Below(1ull << 40));
  for (int i = 0; i < 300 && bad <= 26; i++) {
    bool unb;
    AlgorithmParameters op;
    Problem p = SlowProblem(s, &unb, &op);
    auto sol = MakeSolver(p);
    sol->Update(op);
    Out o = sol->Solve(RandomStart(s, p.qp));
    steps += o.prox;
    if (o.threw || !Infeasible(o.eflag)) bad++;
  }
  c.Label("problems", 300);
  c.Label("no verdict", bad);
  c.nontrivial = steps > 300;
  c.Note("%d problems without a verdict", bad);
  VF_CHECK(bad <= 26, "%d or more of 300 problems got no verdict",
           bad);
}
static void SlowCase(Src& s, Case& c) {
  bool unb;
  AlgorithmParameters op;
  Problem p = SlowProblem(s, &unb, &op);
  op.max_prox_iters = 300;
  auto sol = MakeSolver(p);
  sol->Update(op);
  Start x = RandomStart(s, p.qp);
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  Out o = sol->Solve(x);
  NoteOut(c, o);
  c.nontrivial = o.newton > 0;
  c.Label(std::string(unb ? "unbounded " : "infeasible ") +
          (o.threw ? "threw" : FlagName(o.eflag)));
  if (o.prox > 15) c.Label("late verdict");
  VF_CHECK(!o.threw, "solver threw: %s", o.what.c_str());
  if (o.eflag == ExitFlag::MAXITERATIONS) return;
  const ExitFlag want =
      unb ? ExitFlag::DUAL_INFEASIBLE : ExitFlag::PRIMAL_INFEASIBLE;
  VF_CHECK(o.eflag == want, "%s problem ended with %s",
           unb ? "an unbounded" : "an infeasible", OutStr(o).c_str());
}
static void A1(Src& s, Case& c) { One(s, c, INF_DENSE); }
static void A2(Src& s, Case& c) { One(s, c, INF_MPC); }
static void A3(Src& s, Case& c) { One(s, c, UNB_DENSE); }
static void A4(Src& s, Case& c) { One(s, c, UNB_MPC); }
static void B1(Src& s, Case& c) { Batch(s, c, INF_DENSE, 300, 3); }
static void B2(Src& s, Case& c) { Batch(s, c, INF_MPC, 300, 20); }
static void B3(Src& s, Case& c) { Batch(s, c, UNB_DENSE, 300, 3); }
static void B4(Src& s, Case& c) { Batch(s, c, UNB_MPC, 300, 18); }
namespace vf {
std::vector<Property> kProperties = {{"infeasible_dense", A1, 30000, 500000},
                                     {"infeasible_mpc", A2, 30000, 500000},
                                     {"infeasible_weak", Weak, 30000, 500000},
                                     {"unbounded_dense", A3, 30000, 500000},
                                     {"unbounded_mpc", A4, 30000, 500000},
                                     {"options", Options, 20000, 300000},
                                     {"slow", SlowCase, 15000, 300000},
                                     {"batch_slow", SlowBatch, 16, 400},
                                     {"batch_infeasible_dense", B1, 24, 240},
                                     {"batch_infeasible_mpc", B2, 24, 240},
                                     {"batch_unbounded_dense", B3, 24, 240},
                                     {"batch_unbounded_mpc", B4, 24, 240}};
}
