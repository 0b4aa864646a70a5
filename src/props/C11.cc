// C11: options are sanitised and then honoured.
#include <limits>

#include "common.h"
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "sanitize.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C11";
const char* kRule =
    "Option sets with admissible, boundary, out-of-range, infinite and "
    "subnormal values. store: a sequence of updates on one algorithm object, "
    "the stored set must equal an independent sanitiser's, field by field, "
    "bitwise. solve: a solve with raw options equals one with the sanitised "
    "set and one after unrelated earlier updates, bitwise. stock: Default/"
    "ReliableParameters overwrite any previous content with constants. "
    "Non-trivial: some field was inadmissible and replaced (store), or at "
    "least two Newton steps (solve).";
}
using Algo = fbstab::FBstabAlgorithm<fbstab::FullVariable, fbstab::FullResidual,
                                     fbstab::DenseCholeskySolver,
                                     fbstab::FullFeasibility>;
static const int kReals = 14, kInts = 4;
static double* Real(AlgorithmParameters& p, int i) {
  double* f[kReals] = {&p.sigma0,    &p.sigma_max,     &p.sigma_min, &p.alpha,
                       &p.beta,      &p.eta,           &p.delta,     &p.gamma,
                       &p.abs_tol,   &p.rel_tol,       &p.stall_tol,
                       &p.infeas_tol, &p.inner_tol_max, &p.inner_tol_min};
  return f[i];
}
static int* Integer(AlgorithmParameters& p, int i) {
  int* f[kInts] = {&p.max_newton_iters, &p.max_prox_iters, &p.max_inner_iters,
                   &p.max_linesearch_iters};
  return f[i];
}
static const char* kNames[] = {
    "sigma0", "sigma_max", "sigma_min", "alpha", "beta", "eta", "delta",
    "gamma", "abs_tol", "rel_tol", "stall_tol", "infeas_tol", "inner_tol_max",
    "inner_tol_min", "max_newton_iters", "max_prox_iters", "max_inner_iters",
    "max_linesearch_iters", "check_feasibility", "nonmonotone_linesearch",
    "display_level"};
// Values around the bounds named in the documentation, and wild ones.
static double Value(Src& s) {
  static const double kEdges[] = {1e-10, 1e-6, 1e2,  1e-13, 1e-8,   0.001,
                                  0.999, 0.1,  0.99, 1e-12, 0.499,  0.0001,
                                  0.9,   1e-14, 0,   1e-2,  0.5,    1};
  double x;
  switch (s.Pick({4, 3, 2, 1, 1})) {
    case 0: x = s.LogUniform(1e-15, 1e3); break;
    case 1:
      x = kEdges[s.Below(sizeof kEdges / sizeof *kEdges)];
      switch (s.Int(0, 2)) {
        case 1: x = std::nextafter(x, 1e9); break;
        case 2: x = std::nextafter(x, -1e9); break;
      }
      break;
    case 2: x = s.Unit(); break;
    case 3: {
      static const double w[] = {std::numeric_limits<double>::infinity(),
                                 1.7e308, 5e-324, 0, 1e-300};
      x = w[s.Below(5)];
      break;
    }
    default: x = s.LogUniform(1e-20, 1e20);
  }
  if (s.Chance(1, 8)) x = -x;
  return x;
}
static int IValue(Src& s) {
  switch (s.Pick({4, 2, 1, 1})) {
    case 0: return s.Int(1, 1000);
    case 1: return s.Signed(3);
    case 2: return s.Chance(1, 2) ? -2147483647 - 1 : 2147483647;
    default: return s.Signed(1 << 30);
  }
}
static void Perturb(Src& s, AlgorithmParameters* p, int in8) {
  for (int i = 0; i < kReals; i++)
    if (s.Chance(in8, 8)) *Real(*p, i) = Value(s);
  for (int i = 0; i < kInts; i++)
    if (s.Chance(in8, 8)) *Integer(*p, i) = IValue(s);
  if (s.Chance(in8, 8)) p->check_feasibility = s.Chance(1, 2);
  if (s.Chance(in8, 8)) p->nonmonotone_linesearch = s.Chance(1, 2);
  if (s.Chance(in8, 8)) p->display_level = fbstab::Display(s.Int(0, 3));
}
// Zero and minus zero are the same option.
static bool Same(double a, double b) { return a == b; }
// Index of the first difference, -1 if none.
static int Differs(AlgorithmParameters a, AlgorithmParameters b) {
  for (int i = 0; i < kReals; i++)
    if (!Same(*Real(a, i), *Real(b, i))) return i;
  for (int i = 0; i < kInts; i++)
    if (*Integer(a, i) != *Integer(b, i)) return kReals + i;
  if (a.check_feasibility != b.check_feasibility) return 18;
  if (a.nonmonotone_linesearch != b.nonmonotone_linesearch) return 19;
  if (a.display_level != b.display_level) return 20;
  return -1;
}
struct Direct {
  fbstab::FullVariable a, b, c, d;
  fbstab::FullResidual r, q;
  fbstab::DenseCholeskySolver lin;
  fbstab::FullFeasibility feas;
  Algo algo;
  Direct(int nz, int nl, int nv)
      : a(nz, nl, nv), b(nz, nl, nv), c(nz, nl, nv), d(nz, nl, nv),
        r(nz, nl, nv), q(nz, nl, nv), lin(nz, nl, nv), feas(nz, nl, nv),
        algo(&a, &b, &c, &d, &r, &q, &lin, &feas) {}
};
static AlgorithmParameters Stock(int k) {
  AlgorithmParameters p;
  switch (k) {
    case 0: return p;
    case 1: p.DefaultParameters(); return p;
    case 2: p.ReliableParameters(); return p;
    case 3: return DenseDefaults();
    case 4: return DenseReliable();
    case 5: return MpcDefaults();
    default: return MpcReliable();
  }
}
// The invariants that must hold of any sanitised set.
static void Admissible(const AlgorithmParameters& p, const char* where) {
  const bool ok =
      p.sigma_min >= 1e-13 && p.sigma_min <= 1e-8 && p.sigma_max >= 1e-6 &&
      p.sigma_max <= 1e2 && p.sigma0 >= p.sigma_min &&
      p.sigma0 <= p.sigma_max && p.alpha > 0 && p.alpha < 1 && p.beta > 0 &&
      p.beta < 1 && p.eta > 0 && p.eta < 0.5 && p.delta > 0 && p.delta < 1 &&
      p.gamma > 0 && p.gamma < 1 && p.abs_tol > 0 && p.rel_tol >= 0 &&
      p.stall_tol > 0 && p.infeas_tol > 0 && p.inner_tol_min > 0 &&
      p.inner_tol_min <= p.inner_tol_max && p.max_newton_iters >= 1 &&
      p.max_prox_iters >= 1 && p.max_inner_iters >= 1 &&
      p.max_linesearch_iters >= 1;
  VF_CHECK(ok, "%s: the stored set is not admissible: %s", where,
           OptStr(p).c_str());
}
static void Store(Src& s, Case& c) {
  Direct d(s.Int(1, 3), s.Int(0, 2), s.Int(1, 3));
  // A new object has the default set.
  AlgorithmParameters want = Stock(1);
  int k = Differs(d.algo.CurrentParameters(), want);
  VF_CHECK(k < 0, "a new algorithm object does not have the default %s",
           kNames[k]);
  const int rounds = s.Int(1, 4);
  AlgorithmParameters p;
  for (int t = 0; t < rounds; t++) {
    if (t == 0 || s.Chance(1, 2)) p = Stock(s.Int(0, 6));
    Perturb(s, &p, s.Int(0, 8));
    const AlgorithmParameters in = p;
    want = Sanitize(p);
    c.Note("update %s", OptStr(p).c_str());
    d.algo.UpdateParameters(&p);
    k = Differs(p, in);
    VF_CHECK(k < 0, "UpdateParameters modified the caller's %s", kNames[k]);
    AlgorithmParameters got = d.algo.CurrentParameters();
    Admissible(got, "UpdateParameters");
    k = Differs(got, want);
    VF_CHECK(k < 0, "stored %s differs from the nearest admissible value: "
             "given %s, stored %s, expected %s", kNames[k], OptStr(in).c_str(),
             OptStr(got).c_str(), OptStr(want).c_str());
    // Validation directly, and idempotence.
    AlgorithmParameters v = p;
    v.ValidateOptions();
    k = Differs(v, want);
    VF_CHECK(k < 0, "ValidateOptions: %s differs", kNames[k]);
    v.ValidateOptions();
    k = Differs(v, want);
    VF_CHECK(k < 0, "a second ValidateOptions changes %s", kNames[k]);
    AlgorithmParameters again = got;
    d.algo.UpdateParameters(&again);
    k = Differs(d.algo.CurrentParameters(), got);
    VF_CHECK(k < 0, "applying the stored set again changes %s", kNames[k]);
    if (Differs(in, want) >= 0) {
      c.nontrivial = true;
      c.Label("replaced");
    } else {
      c.Label("kept");
    }
  }
}
static void StockSets(Src& s, Case& c) {
  AlgorithmParameters p, d = Stock(1), r = Stock(2);
  Perturb(s, &p, 8);
  AlgorithmParameters q = p;
  const bool first = s.Chance(1, 2);
  c.Note("before: %s", OptStr(p).c_str());
  if (first)
    p.DefaultParameters();
  else
    p.ReliableParameters();
  int k = Differs(p, first ? d : r);
  VF_CHECK(k < 0, "%s depends on the previous value of %s",
           first ? "DefaultParameters" : "ReliableParameters", kNames[k]);
  if (first)
    p.ReliableParameters();
  else
    p.DefaultParameters();
  k = Differs(p, first ? r : d);
  VF_CHECK(k < 0, "%s depends on the previous value of %s",
           first ? "ReliableParameters" : "DefaultParameters", kNames[k]);
  for (const AlgorithmParameters& x : {d, r}) {
    AlgorithmParameters y = x;
    y.ValidateOptions();
    k = Differs(x, y);
    VF_CHECK(k < 0, "stock value of %s is not admissible", kNames[k]);
    k = Differs(x, Sanitize(x));
    VF_CHECK(k < 0, "stock value of %s is not admissible", kNames[k]);
  }
  // The solvers' own stock sets.
  k = Differs(Stock(3), d);
  VF_CHECK(k < 0, "FBstabDense::DefaultOptions: %s", kNames[k]);
  k = Differs(Stock(4), r);
  VF_CHECK(k < 0, "FBstabDense::ReliableOptions: %s", kNames[k]);
  for (int i : {5, 6}) {
    AlgorithmParameters y = Stock(i);
    k = Differs(y, Sanitize(y));
    VF_CHECK(k < 0, "FBstabMpc stock %s is not admissible", kNames[k]);
  }
  k = Differs(Stock(5), d);
  VF_CHECK(k < 0, "FBstabMpc::DefaultOptions: %s", kNames[k]);
  k = Differs(Stock(6), r);
  VF_CHECK(k < 0, "FBstabMpc::ReliableOptions: %s", kNames[k]);
  // What the documentation promises of the reliable set: more effort.
  VF_CHECK(r.sigma0 > d.sigma0 && r.max_newton_iters >= d.max_newton_iters &&
               r.max_prox_iters >= d.max_prox_iters &&
               r.max_linesearch_iters >= d.max_linesearch_iters &&
               !r.nonmonotone_linesearch && d.nonmonotone_linesearch &&
               d.check_feasibility && r.check_feasibility &&
               d.abs_tol <= 1e-4 && r.abs_tol <= 1e-2,
           "the stock sets are not what they are documented to be: %s / %s",
           OptStr(d).c_str(), OptStr(r).c_str());
  c.nontrivial = true;
}
static void Solve(Src& s, Case& c) {
  Mixed m = GenMixed(s, {5, 1, 1, 1}, 3);
  AlgorithmParameters op = GenOptions(s);
  for (int i = 0; i < kReals; i++)
    if (s.Chance(2, 8)) *Real(op, i) = Value(s);
  for (int i = 0; i < kInts; i++)
    if (s.Chance(1, 8)) *Integer(op, i) = std::min(IValue(s), 2000);
  op.max_newton_iters = std::min(op.max_newton_iters, 300);
  op.display_level = fbstab::Display(s.Pick({2, 1, 1, 1}));
  AlgorithmParameters sn = Sanitize(op);
  Start x = RandomStart(s, m.p.qp);
  m.p.Describe(c);
  NoteStart(c, x);
  c.Note("raw %s\nsanitised %s", OptStr(op).c_str(), OptStr(sn).c_str());
  auto a = MakeSolver(m.p), b = MakeSolver(m.p), d = MakeSolver(m.p);
  a->Update(op);
  b->Update(sn);
  AlgorithmParameters other;
  const int k = s.Int(1, 3);
  for (int i = 0; i < k; i++) {
    Perturb(s, &other, s.Int(1, 8));
    d->Update(other);
  }
  d->Update(op);
  Out oa = a->Solve(x), ob = b->Solve(x), od = d->Solve(x);
  NoteOut(c, oa);
  c.nontrivial = oa.newton > 1;
  c.Label(oa.threw ? "threw" : FlagName(oa.eflag));
  VF_CHECK(SameOut(oa, ob), "raw options: %s\nsanitised options: %s",
           OutStr(oa).c_str(), OutStr(ob).c_str());
  VF_CHECK(SameOut(oa, od), "fresh object: %s\nafter other options: %s",
           OutStr(oa).c_str(), OutStr(od).c_str());
  // A solver that was never given options uses the default set.
  if (s.Chance(1, 8)) {
    auto e = MakeSolver(m.p), f = MakeSolver(m.p);
    f->Update(m.p.mpc ? MpcDefaults() : DenseDefaults());
    Out oe = e->Solve(x), of = f->Solve(x);
    VF_CHECK(SameOut(oe, of), "no options: %s\ndefault options: %s",
             OutStr(oe).c_str(), OutStr(of).c_str());
    VF_CHECK(oe.log.empty() == of.log.empty(),
             "display differs from the default options'");
  }
  // The sanitised set is what the summary reports.
  if (!oa.threw && sn.display_level != fbstab::Display::OFF) {
    char buf[100];
    snprintf(buf, sizeof buf, "Proximal iterations: %d out of %d\n", oa.prox,
             sn.max_prox_iters);
    VF_CHECK(oa.log.find(buf) != std::string::npos,
             "the summary does not report the limit in force: %s",
             oa.log.c_str());
    snprintf(buf, sizeof buf, "Newton iterations: %d out of %d\n", oa.newton,
             sn.max_newton_iters);
    VF_CHECK(oa.log.find(buf) != std::string::npos,
             "the summary does not report the limit in force: %s",
             oa.log.c_str());
  }
}
namespace vf {
std::vector<Property> kProperties = {{"store", Store, 150000, 3000000},
                                     {"stock", StockSets, 20000, 200000},
                                     {"solve", Solve, 50000, 1000000}};
}
