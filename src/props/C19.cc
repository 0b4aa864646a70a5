// C19: a guess that meets the tolerance is returned at once, unchanged.
#include "common.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C19";
const char* kRule =
    "Guesses whose residual, recomputed in extended precision, is below the "
    "tolerance by more than rounding: points returned by successful solves "
    "(any options, other solves in between, fresh solvers), exact solutions of "
    "integer problems, arbitrary points with tolerances placed just above "
    "their residual, and with the tolerance exactly at the reported one. Non-trivial: the guess is not zero.";
}
namespace {
double Tol(const Problem& p, const AlgorithmParameters& op) {
  return op.abs_tol + op.rel_tol * (1 + p.qp.ForcingNorm());
}
double Rounding(const Qp& q, const Kkt& k) {
  return 1e-13 * double(k.scale) * (1 + q.nv + q.nz);
}
// Whether the guess meets the tolerance beyond doubt.
bool Meets(const Problem& p, const AlgorithmParameters& op, const Start& x) {
  Kkt k = EvalKkt(p.qp, x.z, x.l, x.v, op.alpha);
  return double(k.pnr) * (1 + 1e-9) + Rounding(p.qp, k) <= Tol(p, op);
}
void Immediate(const Problem& p, const AlgorithmParameters& op, const Start& x,
               const Out& o) {
  VF_CHECK(!o.threw && o.eflag == ExitFlag::SUCCESS && o.newton == 0 &&
               o.prox == 0,
           "the guess meets the tolerance %g, but: %s", Tol(p, op),
           OutStr(o).c_str());
  VF_CHECK(SameBits(o.z, x.z) && SameBits(o.l, x.l) && SameBits(o.v, x.v),
           "the guess was changed: %s", OutStr(o).c_str());
  VF_CHECK(o.residual == o.initial_residual,
           "residual %.17g, initial residual %.17g", o.residual,
           o.initial_residual);
  Kkt k = EvalKkt(p.qp, x.z, x.l, x.v, op.alpha);
  const double r = Rounding(p.qp, k);
  VF_CHECK(std::fabs(o.residual - double(k.pnr)) <= r + 1e-12 * o.residual,
           "residual %.17g, of the guess %.17Lg", o.residual, k.pnr);
  for (int i = 0; i < p.qp.nv; i++)
    VF_CHECK(std::fabs(o.y(i) - double(k.y(i))) <= r,
             "margin %d is %.17g, of the guess %.17Lg", i, o.y(i), k.y(i));
}
// Unrelated use of the solver.
void Disturb(Src& s, AnySolver& sol, const Problem& p) {
  AlgorithmParameters op = GenOptions(s);
  op.max_newton_iters = std::min(op.max_newton_iters, 30);
  sol.Update(op);
  sol.Solve(RandomStart(s, p.qp));
}
void Resolve(Src& s, Case& c) {
  Mixed m = GenMixed(s, {8, 1, 0, 0}, 3);
  Problem& p = m.p;
  AlgorithmParameters op = s.Chance(1, 3)   ? Defaults(p)
                           : s.Chance(1, 2) ? Reliable(p)
                                            : GenOptions(s);
  Start x = RandomStart(s, p.qp);
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  auto sol = MakeSolver(p);
  sol->Update(op);
  Out o = sol->Solve(x);
  NoteOut(c, o);
  if (o.threw || o.eflag != ExitFlag::SUCCESS) {
    c.Label("not solved");
    throw Discard();
  }
  Start y{o.z, o.l, o.v, o.y};
  if (!Meets(p, op, y)) {
    // Stopped by stalling, or on the boundary.
    c.Label("returned point not within tolerance");
    throw Discard();
  }
  c.nontrivial = Scale(y) > 0 && o.prox > 0;
  if (s.Chance(1, 3))
    for (int i = 0; i < p.qp.nv; i++) y.y(i) = s.Real(100);
  if (s.Chance(1, 3)) {
    Disturb(s, *sol, p);
    sol->Update(op);
    c.Label("used in between");
  }
  if (s.Chance(1, 4)) {
    sol = MakeSolver(p);
    sol->Update(op);
    c.Label("fresh solver");
  }
  Out o2 = sol->Solve(y, Iface(s.Below(4)));
  NoteOut(c, o2);
  Immediate(p, op, y, o2);
  // Looser tolerances accept it too, whatever else is configured.
  AlgorithmParameters q = GenOptions(s);
  q.alpha = op.alpha;
  q.abs_tol = std::max(q.abs_tol, op.abs_tol);
  q.rel_tol = std::max(q.rel_tol, op.rel_tol);
  sol->Update(q);
  Out o3 = sol->Solve(y);
  Immediate(p, q, y, o3);
  c.Label("resolved");
}
void Exact(Src& s, Case& c) {
  Problem p;
  if (s.Chance(3, 8)) {
    OcpOpts g = OcpSizes(s);
    g.allow_real = false;
    p = GenKind(s, Kind::SOLVABLE, g);
  } else {
    GenOpts g = Sizes(s);
    g.allow_real = false;
    p = GenKind(s, Kind::SOLVABLE, g);
  }
  AlgorithmParameters op = s.Chance(1, 4) ? Defaults(p) : GenOptions(s);
  if (s.Chance(1, 4)) {
    op.abs_tol = 1e-14;
    op.rel_tol = 0;
  }
  Start x{p.qp.z, p.qp.l, p.qp.v, Vec::Zero(p.qp.nv)};
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  Kkt k = EvalKkt(p.qp, x.z, x.l, x.v, op.alpha);
  if (k.pnr != 0) {
    c.Label("not exact");
    if (!Meets(p, op, x)) throw Discard();
  }
  c.nontrivial = Scale(x) > 0;
  auto sol = MakeSolver(p);
  if (s.Chance(1, 3)) Disturb(s, *sol, p);
  sol->Update(op);
  Out o = sol->Solve(x, Iface(s.Below(4)));
  NoteOut(c, o);
  Immediate(p, op, x, o);
  if (k.pnr == 0 && p.qp.exact)
    VF_CHECK(o.residual == 0, "residual %g at an exact integer solution",
             o.residual);
}
// Any point, with the tolerance placed just above its residual.
void Tolerance(Src& s, Case& c) {
  Mixed m = GenMixed(s, {4, 3, 1, 1}, 3);
  Problem& p = m.p;
  AlgorithmParameters op = GenOptions(s);
  Start x = RandomStart(s, p.qp);
  Kkt k = EvalKkt(p.qp, x.z, x.l, x.v, op.alpha);
  const double e = double(k.pnr);
  const double want = s.Chance(1, 2) ? e * (1 + s.LogUniform(1e-6, 1)) + 2e-14
                                     : e * s.LogUniform(1.001, 1e3) + 2e-14;
  const double f = 1 + p.qp.ForcingNorm();
  switch (s.Pick({2, 2, 1})) {
    case 0:
      op.abs_tol = want;
      op.rel_tol = 0;
      break;
    case 1:
      op.abs_tol = 1e-14;
      op.rel_tol = want / f;
      c.Label("relative tolerance");
      break;
    default:
      op.abs_tol = want / 2;
      op.rel_tol = want / 2 / f;
      c.Label("both tolerances");
  }
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  if (!Meets(p, op, x)) throw Discard();
  c.nontrivial = Scale(x) > 0;
  if (x.v.minCoeff() < 0) c.Label("negative multipliers in the guess");
  auto sol = MakeSolver(p);
  sol->Update(op);
  Out o = sol->Solve(x, Iface(s.Below(4)));
  NoteOut(c, o);
  Immediate(p, op, x, o);
}
// The tolerance placed exactly at the residual the solver reports: meeting it
// with equality is meeting it.
void Boundary(Src& s, Case& c) {
  Mixed m = GenMixed(s, {4, 3, 1, 1}, 3);
  Problem& p = m.p;
  AlgorithmParameters op = GenOptions(s);
  Start x = RandomStart(s, p.qp);
  const Iface f = Iface(s.Below(4));
  p.Describe(c);
  NoteStart(c, x);
  auto sol = MakeSolver(p);
  AlgorithmParameters first = op;
  first.max_newton_iters = std::min(op.max_newton_iters, 5);
  sol->Update(first);
  Out o = sol->Solve(x, f);
  if (o.threw || !(o.initial_residual >= 1e-14) ||
      !(o.initial_residual < 1e100))
    throw Discard();
  op.abs_tol = o.initial_residual;
  op.rel_tol = 0;
  c.Note("%s", OptStr(op).c_str());
  c.nontrivial = Scale(x) > 0;
  if (s.Chance(1, 3)) Disturb(s, *sol, p);
  sol->Update(op);
  o = sol->Solve(x, f);
  NoteOut(c, o);
  Immediate(p, op, x, o);
}
}  // namespace
namespace vf {
std::vector<Property> kProperties = {{"resolve", Resolve, 150000, 2000000},
                                     {"exact", Exact, 150000, 2000000},
                                     {"tolerance", Tolerance, 150000, 2000000},
                                     {"boundary", Boundary, 50000, 700000}};
}
