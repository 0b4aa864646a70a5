// C01: success means a KKT point within the advertised tolerance.
#include "common.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C01";
const char* kRule =
    "Problems (dense and optimal control; built from a solution, arbitrary, "
    "infeasible or unbounded), guesses and valid options are generated; "
    "whenever the solver reports SUCCESS the KKT residual of the returned "
    "point is evaluated independently in extended precision and compared with "
    "abs_tol + rel_tol*(1+||(f,h,b)||), or the documented stall is confirmed "
    "by re-running to the previous outer iterate. Non-trivial: SUCCESS after "
    "at least one Newton step.";
}

static void Check(Src& s, Case& c, const Mixed& m, AlgorithmParameters op) {
  const Qp& q = m.p.qp;
  auto sol = MakeSolver(m.p);
  sol->Update(op);
  Start x = RandomStart(s, q);
  m.p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  Out o = sol->Solve(x);
  NoteOut(c, o);
  c.Label(std::string(KindName(m.kind)) + (m.p.mpc ? " mpc " : " dense ") +
          (o.threw ? "threw" : FlagName(o.eflag)));
  if (o.threw || o.eflag != ExitFlag::SUCCESS) return;
  if (o.newton > 0) c.nontrivial = true;
  const double tol = op.abs_tol + op.rel_tol * (1.0 + q.ForcingNorm());
  // See MarginsBounded: otherwise the margins are taken as returned.
  const bool strict = MarginsBounded(q, op);
  if (!strict) c.Label("margins as returned");
  Kkt k = EvalKkt(q, o.z, o.l, o.v, op.alpha, strict ? nullptr : &o.y);
  // Rounding: the margins are accumulated over the iterations.
  const double slack =
      1e-9 * tol + Slack(q, x, op, double(k.scale), o.initial_residual);
  if (k.pnr <= tol + slack) return;
  // Only the stall remains.
  VF_CHECK(o.prox >= 1, "success at the guess with residual %Lg > %g", k.pnr,
           tol);
  Start prev = x;
  if (o.prox >= 2) {
    AlgorithmParameters op2 = op;
    op2.max_prox_iters = o.prox - 1;
    sol->Update(op2);
    Out o2 = sol->Solve(x);
    VF_CHECK(!o2.threw && o2.prox == o.prox - 1,
             "rerun with max_prox_iters=%d gave %s", o.prox - 1,
             OutStr(o2).c_str());
    prev = {o2.z, o2.l, o2.v, o2.y};
  }
  const double step =
      std::sqrt((o.z - prev.z).squaredNorm() + (o.l - prev.l).squaredNorm() +
                (o.v - prev.v).squaredNorm());
  c.Label(o.prox < 10 ? "stalled" : "stalled late");
  VF_CHECK(step <= op.stall_tol * (1 + 1e-6) + 1e-15 * double(k.scale),
           "success with KKT residual %Lg > tolerance %g (+%g) and step %g > "
           "stall tolerance %g",
           k.pnr, tol, slack, step, op.stall_tol);
}
static void MixedCase(Src& s, Case& c) {
  Mixed m = GenMixed(s, {5, 4, 1, 1}, 3);
  AlgorithmParameters op;
  switch (s.Pick({2, 2, 4})) {
    case 0: op = Defaults(m.p); break;
    case 1: op = Reliable(m.p); break;
    default: op = GenOptions(s); break;
  }
  Check(s, c, m, op);
}
static void Solvable(Src& s, Case& c) {
  Mixed m = GenMixed(s, {1, 0, 0, 0}, 4, true);
  AlgorithmParameters op = s.Chance(1, 2) ? Defaults(m.p) : Reliable(m.p);
  // Tolerances that matter.
  if (s.Chance(2, 3)) op.abs_tol = s.LogUniform(1e-12, 1e-2);
  if (s.Chance(2, 3)) op.rel_tol = s.Chance(1, 2) ? 0 : s.LogUniform(1e-12, 1e-2);
  if (s.Chance(1, 2)) op.alpha = 0.001 + 0.998 * s.Unit();
  if (s.Chance(1, 3)) op.stall_tol = 1e-14;
  Check(s, c, m, op);
}
// Many outer iterations, each of them a small step: the tolerance or the stall
// is met late.
static void SlowCase(Src& s, Case& c) {
  Mixed m = GenMixed(s, {6, 2, 1, 1}, 2, s.Chance(1, 2));
  AlgorithmParameters op = s.Chance(1, 2) ? Defaults(m.p) : Reliable(m.p);
  Slow(s, &op);
  op.abs_tol = s.LogUniform(1e-9, 1e-2);
  op.rel_tol = s.Chance(1, 2) ? 0 : s.LogUniform(1e-9, 1e-3);
  op.stall_tol = s.LogUniform(1e-9, 1e-1);
  if (s.Chance(1, 2)) {  // only the stall remains
    op.abs_tol *= 1e-3;
    op.rel_tol = 0;
  }
  op.inner_tol_min = std::min(op.inner_tol_min, 0.1 * op.abs_tol);
  if (s.Chance(1, 3)) op.alpha = 0.001 + 0.998 * s.Unit();
  Check(s, c, m, op);
}
namespace vf {
std::vector<Property> kProperties = {{"mixed", MixedCase, 100000, 2500000},
                                     {"slow", SlowCase, 30000, 800000},
                                     {"solvable", Solvable, 60000, 1500000}};
}
