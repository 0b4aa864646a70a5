// C02: solvable convex problems are solved from any initial guess.
#include "common.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C02";
const char* kRule =
    "Problems are built from a primal-dual solution (with redundant, zero, "
    "degenerate rows; low-rank or zero Hessians in the reliable runs) and "
    "solved from random guesses: the result must be SUCCESS, or the iteration "
    "limit with SUCCESS once the limits are generous; batches bound how often "
    "the stock limits are hit. Non-trivial: at least one Newton step.";
}
enum { DENSE_DEFAULT, DENSE_RELIABLE, MPC_DEFAULT, MPC_RELIABLE };

static Problem Gen(Src& s, int mode, bool small) {
  const bool strong = mode == DENSE_DEFAULT || mode == MPC_DEFAULT;
  if (mode == DENSE_DEFAULT || mode == DENSE_RELIABLE)
    return FromQp(GenSolvable(s, small ? GenOpts{8, 4, 10, true, strong}
                                       : Sizes(s, strong)));
  OcpOpts o = small ? OcpOpts() : OcpSizes(s, strong);
  o.force_strong = strong;
  return FromOcp(GenOcp(s, o));
}
static AlgorithmParameters Opt(Src& s, int mode, const Problem& p) {
  const bool def = mode == DENSE_DEFAULT || mode == MPC_DEFAULT;
  AlgorithmParameters op = def ? Defaults(p) : Reliable(p);
  return op;
}
static void One(Src& s, Case& c, int mode, bool loose = false) {
  Problem p = Gen(s, mode, loose);
  if (loose) Loosen(s, &p);
  auto sol = MakeSolver(p);
  AlgorithmParameters op = Opt(s, mode, p);
  // Guesses near, far, with negative multipliers.
  Start x = RandomStart(s, p.qp);
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  sol->Update(op);
  Out o = sol->Solve(x);
  NoteOut(c, o);
  VF_CHECK(!o.threw, "solver threw on a solvable problem: %s", o.what.c_str());
  c.Label(std::string(FlagName(o.eflag)) +
          (p.qp.strongly_convex ? " strong" : " weak"));
  if (o.newton > 0) c.nontrivial = true;
  if (o.eflag == ExitFlag::MAXITERATIONS) {
    op.max_newton_iters = 100000;
    op.max_prox_iters = 10000;
    sol->Update(op);
    o = sol->Solve(x);
    NoteOut(c, o);
  }
  if (Infeasible(o.eflag)) {
    // Degenerate data can satisfy the documented conditions to the tolerance.
    Certificate(p.qp, o, op.infeas_tol);
    c.Label("tolerance-level certificate on a solvable problem");
    return;
  }
  VF_CHECK(!o.threw && o.eflag == ExitFlag::SUCCESS,
           "solvable problem ended with %s", OutStr(o).c_str());
  Kkt k = EvalKkt(p.qp, o.z, o.l, o.v, op.alpha);
  const double tol = op.abs_tol + op.rel_tol * (1.0 + p.qp.ForcingNorm());
  // Objective: f* is known; weak duality bounds the gap by the residual.
  const double f0 = Objective(p.qp, p.qp.z), f1 = Objective(p.qp, o.z);
  const double mag =
      1 + p.qp.z.norm() + o.z.norm() + p.qp.l.norm() + o.l.norm() +
      p.qp.v.norm() + o.v.norm() + p.qp.b.norm();
  VF_CHECK(std::fabs(f1 - f0) <=
               4 * mag * (tol / op.alpha + double(k.pnr)) +
                   1e-9 * double(k.scale),
           "objective %.12g, optimal value %.12g", f1, f0);
}
// Many small problems: the stock limits must almost always do.
static void Batch(Src& seed, Case& c, int mode, int n, int allowed) {
  int hit = 0, steps = 0;
  Src s(seed.Below(1ull << 40));  // many choices: keep the replay short
  for (int i = 0; i < n; i++) {
    Problem p = Gen(s, mode, true);
    auto sol = MakeSolver(p);
    AlgorithmParameters op = Opt(s, mode, p);
    sol->Update(op);
    Start x = RandomStart(s, p.qp);
    Out o = sol->Solve(x);
    steps += o.newton;
    if (o.threw || o.eflag != ExitFlag::SUCCESS) {
      hit++;
      if (hit > allowed - 2) {
        p.Describe(c);
        NoteStart(c, x);
        NoteOut(c, o);
      }
    }
  }
  c.Note("%d problems, %d Newton steps, %d not solved within stock limits", n,
         steps, hit);
  c.nontrivial = steps > 0;
  c.Label("problems", n);
  c.Label("newton steps", steps);
  c.Label("not solved", hit);
  VF_CHECK(hit <= allowed,
           "%d of %d solvable problems were not solved within stock limits",
           hit, n);
}
#define ONE(name, mode) \
  static void name(Src& s, Case& c) { One(s, c, mode); }
ONE(DD, DENSE_DEFAULT)
ONE(DR, DENSE_RELIABLE)
ONE(MD, MPC_DEFAULT)
ONE(MR, MPC_RELIABLE)
static void Loose(Src& s, Case& c) { One(s, c, s.Int(0, 3), true); }
static void BDD(Src& s, Case& c) { Batch(s, c, DENSE_DEFAULT, 400, 3); }
static void BDR(Src& s, Case& c) { Batch(s, c, DENSE_RELIABLE, 400, 4); }
static void BMD(Src& s, Case& c) { Batch(s, c, MPC_DEFAULT, 200, 3); }
static void BMR(Src& s, Case& c) { Batch(s, c, MPC_RELIABLE, 200, 5); }
namespace vf {
std::vector<Property> kProperties = {
    {"dense_default", DD, 120000, 1500000},
    {"dense_reliable", DR, 120000, 1500000},
    {"mpc_default", MD, 60000, 800000},
    {"mpc_reliable", MR, 60000, 800000},
    {"loose_bounds", Loose, 60000, 600000},
    {"batch_dense_default", BDD, 24, 240},
    {"batch_dense_reliable", BDR, 24, 240},
    {"batch_mpc_default", BMD, 24, 240},
    {"batch_mpc_reliable", BMR, 24, 240},
};
}
