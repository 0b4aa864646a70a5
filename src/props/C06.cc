// C06: the summary describes the point that is returned.
#include <chrono>
#include <sstream>

#include "common.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C06";
const char* kRule =
    "Problems of every kind, guesses, options and small iteration limits; "
    "reported residuals and margins are recomputed from the returned point in "
    "extended precision, budgeted runs are compared with the longer run. "
    "Non-trivial: at least one Newton step.";
}
static void Point(const Problem& p, const AlgorithmParameters& op,
                  const Start& x, const Out& o) {
  const Qp& q = p.qp;
  Kkt k0 = EvalKkt(q, x.z, x.l, x.v, op.alpha);
  VF_CHECK(std::fabs(double(k0.pnr) - o.initial_residual) <=
               1e-11 * double(k0.scale) * (1 + q.nv + q.nz),
           "initial residual %.17g, that of the guess is %.17Lg",
           o.initial_residual, k0.pnr);
  Kkt k = EvalKkt(q, o.z, o.l, o.v, op.alpha, &o.y);
  Kkt ky = EvalKkt(q, o.z, o.l, o.v, op.alpha);
  const double slack = Slack(q, x, op, double(ky.scale), o.initial_residual);
  for (int i = 0; i < q.nv && MarginsBounded(q, op); i++)
    VF_CHECK(std::fabs(double(ky.y(i)) - o.y(i)) <= slack,
             "margin %d is %.17g, b - Az gives %.17Lg (allowance %g)", i,
             o.y(i), ky.y(i), slack);
  if (Infeasible(o.eflag)) return;
  VF_CHECK(std::fabs(double(k.pnr) - o.residual) <=
               1e-11 * double(k.scale) * (1 + q.nv + q.nz),
           "reported residual %.17g, that of the returned point is %.17Lg",
           o.residual, k.pnr);
  if (o.prox > 0) VF_CHECK(o.v.minCoeff() >= 0, "negative multiplier returned");
  if (o.prox == 0 && o.v.minCoeff() < 0)
    VF_CHECK(SameBits(o.z, x.z) && SameBits(o.l, x.l) && SameBits(o.v, x.v),
             "negative multiplier in a point that is not the guess");
}
static AlgorithmParameters Opts(Src& s, const Problem& p) {
  switch (s.Pick({2, 2, 3})) {
    case 0: return Defaults(p);
    case 1: return Reliable(p);
    default: return GenOptions(s);
  }
}
static void Summary(Src& s, Case& c) {
  Mixed m = GenMixed(s, {5, 2, 1, 1}, 3);
  AlgorithmParameters op = Opts(s, m.p);
  if (s.Chance(1, 4)) op.max_newton_iters = s.Int(1, 15);
  if (s.Chance(1, 4)) op.max_prox_iters = s.Int(1, 5);
  if (s.Chance(1, 6)) op.stall_tol = s.LogUniform(1e-4, 1.0);
  auto sol = MakeSolver(m.p);
  sol->Update(op);
  Start x = RandomStart(s, m.p.qp);
  m.p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  auto t0 = std::chrono::steady_clock::now();
  Out o = sol->Solve(x);
  const double el =
      std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
          .count();
  NoteOut(c, o);
  c.Label(o.threw ? "threw" : FlagName(o.eflag));
  if (o.threw) return;
  c.nontrivial = o.newton > 0;
  // An isolated step of an adjustable clock does not survive the confirmation
  // of the failure.
  VF_CHECK(o.time >= 0, "negative solve time %g", o.time);
  VF_CHECK(o.time <= 1.01 * el + 2e-5, "solve time %g exceeds the elapsed %g",
           o.time, el);
  Point(m.p, op, x, o);
  if (o.eflag == ExitFlag::MAXITERATIONS) {
    if (o.newton >= op.max_newton_iters) c.Label("newton limit");
    if (o.prox >= op.max_prox_iters) c.Label("prox limit");
  }
  if (o.eflag == ExitFlag::SUCCESS && o.prox == 0) c.Label("success at start");
  // The margins of the guess are immaterial.
  if (s.Chance(1, 3)) {
    Start x2 = x;
    for (int i = 0; i < m.p.qp.nv; i++)
      x2.y(i) = s.Chance(1, 8) ? std::nan("") : s.Real(1e3);
    Out o2 = sol->Solve(x2);
    VF_CHECK(SameOut(o, o2), "the result depends on the margins supplied: %s",
             OutStr(o2).c_str());
  }
}
// The reported time is that of the call at hand, in seconds.
static void Timing(Src& s, Case& c) {
  GenOpts g;
  g.fixed = true;
  g.max_nz = s.Int(15, 40);
  g.max_nl = s.Int(0, 5);
  g.max_nv = s.Int(20, 60);
  g.force_strong = true;
  Problem p = FromQp(GenSolvable(s, g));
  auto sol = MakeSolver(p);
  sol->Update(Defaults(p));
  Start x = RandomStart(s, p.qp);
  p.Describe(c);
  NoteStart(c, x);
  double best = 0;
  for (int k = 0; k < 12; k++) {
    auto t0 = std::chrono::steady_clock::now();
    Out o = sol->Solve(x);
    const double el =
        std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
            .count();
    if (o.threw) return;
    if (o.newton > 1) c.nontrivial = true;
    VF_CHECK(o.time >= 0, "negative solve time %g", o.time);
    VF_CHECK(o.time <= 1.01 * el + 2e-5,
             "call %d: solve time %g exceeds the elapsed %g", k + 1, o.time, el);
    if (o.newton > 1) best = std::max(best, o.time / el);
  }
  VF_CHECK(!c.nontrivial || best >= 0.25,
           "the solve time never exceeds %g of the time the call takes", best);
}
struct Row {
  int prox, newton;
  double rz, rl, rv;
};
static std::vector<Row> Rows(const std::string& log) {
  std::vector<Row> out;
  std::istringstream in(log);
  std::string line;
  while (std::getline(in, line)) {
    Row r;
    double a, b;
    char extra;
    if (sscanf(line.c_str(), "%d %d %lf %lf %lf %lf %lf %c", &r.prox, &r.newton,
               &r.rz, &r.rl, &r.rv, &a, &b, &extra) == 7)
      out.push_back(r);
  }
  return out;
}
// Limits only cut the run short.
static void Prefix(Src& s, Case& c) {
  Mixed m = GenMixed(s, {6, 2, 1, 1}, 3);
  AlgorithmParameters op = Opts(s, m.p);
  op.max_prox_iters = s.Int(1, 40);
  op.max_newton_iters = s.Int(20, 400);
  op.display_level = fbstab::Display::ITER;
  auto sol = MakeSolver(m.p);
  sol->Update(op);
  Start x = RandomStart(s, m.p.qp);
  m.p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  Out full = sol->Solve(x);
  NoteOut(c, full);
  if (full.threw || full.prox < 1) return;
  c.nontrivial = full.newton > 0;
  std::vector<Row> rows = Rows(full.log);
  c.Label(FlagName(full.eflag));
  const int kmax = std::min(full.prox, 5);
  std::vector<Out> prox;
  for (int k = 1; k <= kmax; k++) {
    AlgorithmParameters o2 = op;
    o2.max_prox_iters = k;
    sol->Update(o2);
    Out o = sol->Solve(x);
    c.Note("max_prox_iters=%d", k);
    NoteOut(c, o);
    prox.push_back(o);
    VF_CHECK(!o.threw && o.eflag == ExitFlag::MAXITERATIONS && o.prox == k,
             "limited to %d outer iterations: %s", k, OutStr(o).c_str());
    Point(m.p, op, x, o);
    // Row k of the longer run describes the k-th iterate.
    if (k < int(rows.size())) {
      const Row& r = rows[k];
      VF_CHECK(r.prox == k && r.newton == o.newton,
               "row %d of the longer run: prox %d newton %d, limited run used "
               "%d Newton iterations",
               k, r.prox, r.newton, o.newton);
      const double nr = std::sqrt(r.rz * r.rz + r.rl * r.rl + r.rv * r.rv);
      VF_CHECK(std::fabs(nr - o.residual) <= 2e-4 * o.residual + 1e-300,
               "iterate %d: residual %.6g in the longer run, %.6g in the "
               "limited run",
               k, nr, o.residual);
    }
    if (k == full.prox && full.eflag == ExitFlag::SUCCESS) {
      Out t = o;
      t.eflag = full.eflag;
      VF_CHECK(SameOut(t, full),
               "%d outer iterations were needed, limiting to that many gives "
               "a different point: %s",
               k, OutStr(o).c_str());
    }
  }
  // Newton limit: the returned point belongs to the interrupted iteration.
  const int j = s.Int(1, full.newton > 1 ? full.newton : 1);
  AlgorithmParameters o2 = op;
  o2.max_newton_iters = j;
  sol->Update(o2);
  Out o = sol->Solve(x);
  c.Note("max_newton_iters=%d", j);
  NoteOut(c, o);
  if (full.newton < 1) return;
  VF_CHECK(!o.threw && o.newton <= j, "Newton limit %d exceeded: %s", j,
           OutStr(o).c_str());
  if (j <= full.newton && o.eflag == ExitFlag::MAXITERATIONS) {
    Point(m.p, op, x, o);
    int k = 0;
    while (k < int(prox.size()) && prox[k].newton < j) k++;
    if (k < int(prox.size())) {
      VF_CHECK(o.prox == k && o.newton == j,
               "Newton limit %d: stopped in outer iteration %d, expected %d", j,
               o.prox, k);
      // The better of the last accepted and the interrupted point.
      const double before =
          k == 0 ? o.initial_residual : prox[k - 1].residual;
      const Vec& z0 = k == 0 ? x.z : prox[k - 1].z;
      const Vec& l0 = k == 0 ? x.l : prox[k - 1].l;
      const Vec& v0 = k == 0 ? x.v : prox[k - 1].v;
      if (o.residual > before * (1 + 1e-9) + 1e-13 &&
          !(o.v.array() == 0).any() && op.max_inner_iters > j) {
        // Without projection, and unless the inner limit struck too, the
        // interrupted point may only be returned when it is better.
        VF_CHECK(SameBits(o.z, z0) && SameBits(o.l, l0) && SameBits(o.v, v0),
                 "stopped by the Newton limit with residual %g although the "
                 "last outer iterate has %g",
                 o.residual, before);
      }
      if (SameBits(o.z, z0) && SameBits(o.l, l0)) c.Label("limit: kept");
      else c.Label("limit: interrupted point");
    }
  }
}
namespace vf {
std::vector<Property> kProperties = {{"summary", Summary, 120000, 2000000},
                                     {"timing", Timing, 1500, 20000},
                                     {"prefix", Prefix, 30000, 400000}};
}
