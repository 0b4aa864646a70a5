// C03: infeasibility verdicts come with valid certificates.
#include "common.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C03";
const char* kRule =
    "Problems of every kind, guesses and valid options are generated; when the "
    "verdict is an infeasibility the returned vectors are checked against the "
    "documented certificate conditions in extended precision. Solvable "
    "problems (built from a solution) must never get such a verdict from a "
    "zero guess (integer data), and otherwise only if the "
    "documented conditions hold to the tolerance. Non-trivial: an infeasibility verdict, "
    "or a solvable problem that needed Newton steps.";
}
static void Any(Src& s, Case& c) {
  Mixed m = GenMixed(s, {1, 3, 3, 3}, 3);
  AlgorithmParameters op;
  switch (s.Pick({2, 2, 4})) {
    case 0: op = Defaults(m.p); break;
    case 1: op = Reliable(m.p); break;
    default: op = GenOptions(s); break;
  }
  if (s.Chance(1, 3)) op.infeas_tol = s.LogUniform(1e-14, 1e-1);
  auto sol = MakeSolver(m.p);
  sol->Update(op);
  Start x = RandomStart(s, m.p.qp);
  m.p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  Out o = sol->Solve(x);
  NoteOut(c, o);
  c.Label(std::string(KindName(m.kind)) + (m.p.mpc ? " mpc " : " dense ") +
          (o.threw ? "threw" : FlagName(o.eflag)));
  if (o.threw || !Infeasible(o.eflag)) return;
  c.nontrivial = true;
  VF_CHECK(op.check_feasibility,
           "infeasibility verdict with feasibility checking disabled");
  Certificate(m.p.qp, o, op.infeas_tol);
}
static void Never(Src& s, Case& c) {
  const bool reliable = s.Chance(1, 2);
  Mixed m = GenMixed(s, {1, 0, 0, 0}, 3, !reliable);
  AlgorithmParameters op = reliable ? Reliable(m.p) : Defaults(m.p);
  Start x = RandomStart(s, m.p.qp);
  // Multipliers close to a wrong certificate: nearly opposite or parallel rows
  // and signs that do not fit.
  const bool wild = s.Chance(1, 2);
  if (!wild) x = Zeros(m.p.qp);
  if (wild) {
    const double r = s.LogUniform(1e-7, 1e5);
    for (int i = 0; i < m.p.qp.nv; i++) x.v(i) = r * s.Signed(2);
    for (int i = 0; i < m.p.qp.nl; i++) x.l(i) = r * s.Signed(2);
  }
  auto sol = MakeSolver(m.p);
  sol->Update(op);
  m.p.Describe(c);
  NoteStart(c, x);
  Out o = sol->Solve(x);
  NoteOut(c, o);
  c.Label(o.threw ? "threw" : FlagName(o.eflag));
  c.nontrivial = o.newton > 0;
  if (!o.threw && Infeasible(o.eflag)) {
    // Only certificates within the documented tolerance are excusable; they
    // exist when multiplier steps are huge compared to the rows.
    c.Label("tolerance-level certificate on a solvable problem");
    Certificate(m.p.qp, o, op.infeas_tol);
    VF_CHECK(wild || !m.p.qp.exact, "a problem with a solution is reported %s",
             FlagName(o.eflag));
  }
}
namespace vf {
std::vector<Property> kProperties = {{"certificates", Any, 110000, 2500000},
                                     {"never_on_solvable", Never, 60000,
                                      1500000}};
}
