// C21: the solvers against an independent implementation of the method.
#include <array>

#include "path.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C21";
const char* kRule =
    "An independent implementation of the proximally stabilised "
    "Fischer-Burmeister method (extended precision, explicit Newton matrices, "
    "pivoted LU) is run on generated problems, guesses, options and budgets; "
    "verdict, counts and the final point must agree within the sensitivity to "
    "rounding, which is measured by perturbing the data. Non-trivial: at least "
    "one Newton step.";
}
namespace {
struct Pt {
  LVec z, l, v, y;
};
struct Stats {
  long backtracks = 0, ls_limit = 0, nonmonotone = 0, inner_limit = 0,
       projected = 0, extra_inner = 0, long_inner = 0;
};
class Reference {
 public:
  Reference(const Qp& q, const AlgorithmParameters& op) : op_(op), q_(q) {
    H = q.H.cast<long double>();
    G = q.G.cast<long double>();
    A = q.A.cast<long double>();
    f = q.f.cast<long double>();
    h = q.h.cast<long double>();
    b = q.b.cast<long double>();
  }
  Stats stats;
  bool kink = false;  // a Newton step at a point of nondifferentiability
  bool marginal = false;  // a decision that rounding could change

  Out Solve(const Start& s) {
    Out o;
    Pt x{s.z.cast<long double>(), s.l.cast<long double>(),
         s.v.cast<long double>(), LVec()};
    Margins(&x);
    const long double tol =
        op_.abs_tol + op_.rel_tol * (1 + q_.ForcingNorm());
    const long double E0 = Kkt(x);
    long double itol = std::min<long double>(
        std::max<long double>(E0, op_.inner_tol_min), op_.inner_tol_max);
    newton_ = 0;
    int prox = 0;
    o.initial_residual = double(E0);
    auto done = [&](ExitFlag e, const Pt& p, long double r) {
      o.eflag = e;
      o.residual = double(r);
      o.newton = newton_;
      o.prox = prox;
      o.z = p.z.cast<double>();
      o.l = p.l.cast<double>();
      o.v = p.v.cast<double>();
      o.y = p.y.cast<double>();
      return o;
    };
    long double step = 1e300L;
    while (prox < op_.max_prox_iters) {
      const long double E = Kkt(x);
      const bool stop = Le(E, tol, Err(x)), stalled = Le(step, op_.stall_tol);
      if (stop || stalled)
        return done(ExitFlag::SUCCESS, x, E);
      itol *= op_.delta;
      itol = std::max<long double>(itol, op_.inner_tol_min);
      itol = std::min<long double>(
          itol, std::max<long double>(E, op_.inner_tol_min));
      Pt c = x;
      const long double Eo = Subproblem(&c, x, itol, E);
      if (newton_ >= op_.max_newton_iters) {
        const Pt& p = moved_ && !Le(E, Eo) ? c : x;
        return done(ExitFlag::MAXITERATIONS, p, Kkt(p));
      }
      Pt d{c.z - x.z, c.l - x.l, c.v - x.v, LVec()};
      Margins(&d);
      if (op_.check_feasibility) {
        const bool pi = PrimalInfeasible(d), di = DualInfeasible(d);
        // The residual that goes with a certificate is that of the last
        // subproblem iterate examined.
        if (pi || di)
          return done(pi && di ? ExitFlag::PRIMAL_DUAL_INFEASIBLE
                      : pi     ? ExitFlag::PRIMAL_INFEASIBLE
                               : ExitFlag::DUAL_INFEASIBLE,
                      d, Eo);
      }
      step = std::sqrt(d.z.squaredNorm() + d.l.squaredNorm() +
                       d.v.squaredNorm());
      x = c;
      prox++;
    }
    return done(ExitFlag::MAXITERATIONS, x, Kkt(x));
  }

 private:
  AlgorithmParameters op_;
  const Qp& q_;
  LMat H, G, A;
  LVec f, h, b;
  int newton_ = 0;
  bool moved_ = false;

  // a <= b, noting when rounding could decide otherwise.
  bool Le(long double a, long double b, long double err = 0) {
    if (std::fabs(a - b) <= 1e-9L * std::max(std::fabs(a), std::fabs(b)) + err)
      marginal = true;
    return a <= b;
  }
  // What double precision may lose in a residual at x (large multipliers).
  long double Err(const Pt& x) const {
    const long double v = Max(x.v), y = Max(x.y), l = Max(x.l), z = Max(x.z);
    const long double a = Max(A.cwiseAbs().rowwise().sum()),
                      hh = Max(H.cwiseAbs().rowwise().sum()),
                      g = q_.nl ? Max(G.cwiseAbs().rowwise().sum()) : 0.0L;
    return 1e-15L * ((1 + a) * (v + z) + y + g * (l + z) + hh * z + Max(f) +
                     Max(b) + v * y * 1e-1L);
  }
  void Margins(Pt* x) const { x->y = b - A * x->z; }
  LVec Stationarity(const Pt& x) const {
    LVec r = H * x.z + f + A.transpose() * x.v;
    if (q_.nl) r += G.transpose() * x.l;
    return r;
  }
  LVec Equality(const Pt& x) const {
    return q_.nl ? LVec(h - G * x.z) : LVec(0);
  }
  static long double Pos(long double t) { return t > 0 ? t : 0; }
  long double Kkt(const Pt& x) const {
    long double s = Stationarity(x).squaredNorm() + Equality(x).squaredNorm();
    const long double al = op_.alpha;
    for (int i = 0; i < q_.nv; i++) {
      const long double c = al * std::min(x.y(i), x.v(i)) +
                            (1 - al) * Pos(x.y(i)) * Pos(x.v(i));
      s += c * c;
    }
    return std::sqrt(s);
  }
  LVec Inner(const Pt& x, const Pt& c) const {
    const long double sg = op_.sigma0, al = op_.alpha;
    LVec r(q_.nz + q_.nl + q_.nv);
    r.head(q_.nz) = Stationarity(x) + sg * (x.z - c.z);
    if (q_.nl) r.segment(q_.nz, q_.nl) = Equality(x) + sg * (x.l - c.l);
    for (int i = 0; i < q_.nv; i++) {
      const long double s = x.y(i) + sg * (x.v(i) - c.v(i)), t = x.v(i);
      r(q_.nz + q_.nl + i) =
          al * (s + t - std::sqrt(s * s + t * t)) + (1 - al) * Pos(s) * Pos(t);
    }
    return r;
  }
  LVec Newton(const Pt& x, const Pt& c, const LVec& r) {
    const long double sg = op_.sigma0, al = op_.alpha;
    const int n = q_.nz, m = q_.nl, k = q_.nv;
    LMat K = LMat::Zero(n + m + k, n + m + k);
    K.block(0, 0, n, n) = H;
    for (int i = 0; i < n; i++) K(i, i) += sg;
    if (m) {
      K.block(0, n, n, m) = G.transpose();
      K.block(n, 0, m, n) = -G;
      for (int i = 0; i < m; i++) K(n + i, n + i) = sg;
    }
    K.block(0, n + m, n, k) = A.transpose();
    for (int i = 0; i < k; i++) {
      const long double s = x.y(i) + sg * (x.v(i) - c.v(i)), t = x.v(i);
      const long double rho = std::sqrt(s * s + t * t);
      long double gs, gt;
      if (rho < 1e-11L) {
        kink = true;  // any element of the generalised Jacobian will do
        gs = gt = al * (1 - std::sqrt(0.5L));
      } else {
        gs = al * (1 - s / rho);
        gt = al * (1 - t / rho);
        if (s > 0 && t > 0) {
          gs += (1 - al) * t;
          gt += (1 - al) * s;
        }
      }
      // y = b - Az
      K.block(n + m + i, 0, 1, n) = -gs * A.row(i);
      K(n + m + i, n + m + i) = gt + sg * gs;
    }
    return K.partialPivLu().solve(-r);
  }
  Pt Move(const Pt& x, const LVec& d, long double t) const {
    Pt r = x;
    r.z += t * d.head(q_.nz);
    if (q_.nl) r.l += t * d.segment(q_.nz, q_.nl);
    r.v += t * d.tail(q_.nv);
    Margins(&r);
    return r;
  }
  // Returns the KKT residual at the last examined iterate.
  long double Subproblem(Pt* x, const Pt& c, long double tol, long double E) {
    std::vector<long double> merits;
    long double Eo = 0;
    int i = 0;
    moved_ = false;  // whether Eo belongs to a point other than the centre
    for (; i < op_.max_inner_iters; i++) {
      moved_ = i > 0;
      const LVec r = Inner(*x, c);
      const long double n = r.norm();
      Eo = Kkt(*x);
      const long double err = Err(*x);
      const bool tiny = Le(n, op_.inner_tol_min, err), small = Le(n, tol, err);
      // Nothing is decided by rounding before the first step: Eo equals E.
      if (tiny || (small && i > 0 && !Le(E, Eo))) break;
      if (newton_ == op_.max_newton_iters) break;
      const LVec d = Newton(*x, c, r);
      newton_++;
      const long double merit = n * n / 2;
      merits.push_back(merit);
      long double ref = merit;
      if (op_.nonmonotone_linesearch) {
        ref = 0;
        for (size_t k = merits.size() > 5 ? merits.size() - 5 : 0;
             k < merits.size(); k++)
          ref = std::max(ref, merits[k]);
      }
      long double t = 1;
      int tries = 0;
      Pt trial = *x;
      for (; tries < op_.max_linesearch_iters; tries++) {
        trial = Move(*x, d, t);
        const long double m = Inner(trial, c).squaredNorm() / 2;
        if (Le(m, ref - 2 * t * op_.eta * merit, 2 * n * Err(trial))) {
          if (!(m <= merit - 2 * t * op_.eta * merit)) stats.nonmonotone++;
          break;
        }
        t *= op_.beta;
      }
      if (tries) stats.backtracks++;
      if (tries == op_.max_linesearch_iters) stats.ls_limit++;
      *x = Move(*x, d, t);
    }
    if (i == op_.max_inner_iters) stats.inner_limit++;
    if (i > 1) stats.extra_inner++;
    if (i > 40) stats.long_inner++;
    for (int k = 0; k < q_.nv; k++)
      if (x->v(k) < 0) {
        x->v(k) = 0;
        stats.projected++;
      }
    return Eo;
  }
  static long double Max(const LVec& v) {
    return v.size() ? v.cwiseAbs().maxCoeff() : 0.0L;
  }
  bool PrimalInfeasible(const Pt& d) const {
    LVec t = A.transpose() * d.v;
    long double p = b.dot(d.v);
    if (q_.nl) {
      t += G.transpose() * d.l;
      p += h.dot(d.l);
    }
    const long double u = std::max(Max(d.v), Max(d.l));
    return Max(t) <= op_.infeas_tol * u && p < 0 &&
           d.v.minCoeff() >= -op_.infeas_tol * u;
  }
  bool DualInfeasible(const Pt& d) const {
    const long double w = Max(d.z), e = op_.infeas_tol * w;
    return w > 1e-14L && (A * d.z).maxCoeff() <= e &&
           (q_.nl == 0 || Max(G * d.z) <= e) && Max(H * d.z) <= e &&
           f.dot(d.z) < 0;
  }
};
void Compare(Src& s, Case& c, const Problem& p, const AlgorithmParameters& op,
             const Start& x, double largest = 1e300) {
  const Qp& q = p.qp;
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  auto sol = MakeSolver(p);
  sol->Update(op);
  Out a = sol->Solve(x);
  Reference ref(q, op);
  Out b = ref.Solve(x);
  NoteOut(c, a);
  NoteOut(c, b);
  c.nontrivial = a.newton > 0;
  c.Label(a.threw ? "threw" : FlagName(a.eflag));
  if (ref.kink) {
    c.Label("kink");
    throw Discard();
  }
  if (ref.marginal) {
    c.Label("marginal decision");
    throw Discard();
  }
  if (a.threw) throw Discard();
  if (InfNorm(All(a)) > largest) {
    c.Label("large multipliers");
    throw Discard();
  }
  // How sensitive is the solver here? (The dense solver stands in for the OCP
  // solver; it takes the same path whenever that is well defined.)
  const uint64_t ps = s.Below(1u << 30);
  Out base = a;
  if (p.mpc) {
    auto den = MakeDense(q.nz, q.nl, q.nv);
    den->SetProblem(q);
    den->Update(op);
    base = den->Solve(x);
  }
  const Sens se = Sensitivity(ps, q, x, op, base);
  if (!se.stable) {
    c.Label("path sensitive to rounding");
    throw Discard();
  }
  auto explained = [&](double diff) {
    const Sens u = Sensitivity(ps, q, x, op, base, 60);
    return !u.stable || diff <= 3e3 * u.x;
  };
  auto msg = [&] {
    return "solver: " + OutStr(a) + "\nreference: " + OutStr(b);
  };
  if (!SamePath(a, b)) {
    if (explained(1e300)) {
      c.Label("path explained by rounding");
      throw Discard();
    }
    Fail("%s", msg().c_str());
  }
  const double scale = 1 + InfNorm(All(b));
  const double allow = 1e-9 * scale + 3e3 * se.x;
  if (allow > 1e-4 * scale) {
    c.Label("iterates sensitive to rounding");
    throw Discard();
  }
  const double d = Diff(a, b);
  if (d > allow && explained(d)) {
    c.Label("difference explained by rounding");
    throw Discard();
  }
  VF_CHECK(d <= allow, "vectors differ by %g (allowance %g)\n%s", d, allow,
           msg().c_str());
  const double rs = 1 + InfNorm(q.f) + InfNorm(q.b) + 10 * scale;
  VF_CHECK(std::fabs(a.residual - b.residual) <=
               1e-8 * rs + 3e3 * se.r + 30 * allow * (1 + q.A.norm() +
                                                      q.H.norm() + scale),
           "residuals differ\n%s", msg().c_str());
  VF_CHECK(std::fabs(a.initial_residual - b.initial_residual) <=
               1e-11 * (rs + b.initial_residual),
           "initial residuals differ\n%s", msg().c_str());
  const Stats& t = ref.stats;
  if (t.backtracks) c.Label("backtracking");
  if (t.ls_limit) c.Label("line search limit");
  if (t.nonmonotone) c.Label("nonmonotone acceptance");
  if (t.inner_limit) c.Label("inner limit");
  if (t.projected) c.Label("projection");
  if (t.extra_inner) c.Label("several Newton steps in a subproblem");
  if (t.long_inner) c.Label("more than 40 Newton steps in a subproblem");
  if (a.prox > 1) c.Label("several outer iterations");
  if (a.prox > 12) c.Label("many outer iterations");
  if (a.newton > 50) c.Label("many Newton steps");
}
AlgorithmParameters Opts(Src& s, const Problem& p) {
  AlgorithmParameters op = BudgetOptions(s, p);
  if (s.Chance(1, 2)) op.beta = 0.1 + 0.88 * s.Unit();
  if (s.Chance(1, 2)) op.eta = s.Chance(1, 2) ? 0.499 * s.Unit() + 1e-3
                                              : s.LogUniform(1e-12, 0.49);
  if (op.eta > 0.499) op.eta = 0.499;
  if (s.Chance(1, 2)) op.delta = s.LogUniform(1e-4, 0.99);
  if (s.Chance(1, 3)) op.max_linesearch_iters = s.Int(1, 6);
  if (s.Chance(1, 3)) op.max_inner_iters = s.Int(1, 8);
  if (s.Chance(1, 3)) op.stall_tol = s.LogUniform(1e-8, s.Chance(1, 6) ? 1e2 : 0.5);
  if (s.Chance(1, 3)) op.rel_tol = s.LogUniform(1e-9, 1e-2);
  if (s.Chance(1, 6)) op.check_feasibility = false;
  return op;
}
Start Guess(Src& s, const Qp& q) {
  Start x = RandomStart(s, q);
  if (s.Chance(1, 3)) {  // stressful for the line search
    const double r = s.LogUniform(1, 300);
    for (int i = 0; i < q.nz; i++) x.z(i) = s.Real(r);
    for (int i = 0; i < q.nv; i++) x.v(i) = s.Real(r);
  } else if (s.Chance(1, 2)) {
    // Off the kinks of the complementarity function.
    for (int i = 0; i < q.nz; i++) x.z(i) += 0.37 * s.Unit() + 0.01;
    for (int i = 0; i < q.nv; i++) x.v(i) += 0.37 * s.Unit() + 0.01;
  }
  return x;
}
void Dense(Src& s, Case& c) {
  Mixed m = GenMixed(s, {5, 2, 1, 1}, 0, s.Chance(2, 3), false);
  if (m.p.qp.nz + m.p.qp.nv > 60) throw Discard();
  AlgorithmParameters op = Opts(s, m.p);
  Compare(s, c, m.p, op, Guess(s, m.p.qp));
}
void Mpc(Src& s, Case& c) {
  Problem p;
  OcpOpts z;
  z.max_N = 4;
  z.max_nx = 3;
  z.force_strong = s.Chance(2, 3);
  switch (s.Pick({5, 2, 1, 1})) {
    case 0: p = GenKind(s, Kind::SOLVABLE, z); break;
    case 1: p = GenKind(s, Kind::ANY, z); break;
    case 2: p = GenKind(s, Kind::INFEASIBLE, z); break;
    default: p = GenKind(s, Kind::UNBOUNDED, z);
  }
  AlgorithmParameters op = Opts(s, p);
  Compare(s, c, p, op, Guess(s, p.qp));
}
// Difficult line searches: large multipliers and violated constraints, so that
// steps are shortened and the nonmonotone memory matters.
void LineSearch(Src& s, Case& c) {
  GenOpts g;
  g.max_nz = 5;
  g.max_nv = 8;
  g.force_strong = s.Chance(1, 2);
  Problem p = FromQp(s.Chance(1, 2) ? GenSolvable(s, g) : GenAnyQp(s, g));
  AlgorithmParameters op = Opts(s, p);
  op.alpha = s.Chance(1, 2) ? 0.001 + 0.5 * s.Unit() : op.alpha;
  op.eta = s.Chance(2, 3) ? 0.05 + 0.449 * s.Unit() : op.eta;
  op.max_newton_iters = s.Int(1, 25);
  op.max_inner_iters = s.Chance(3, 4) ? 50 : s.Int(1, 8);
  if (s.Chance(3, 4)) op.max_linesearch_iters = 30;
  op.nonmonotone_linesearch = s.Chance(2, 3);
  Start x = Guess(s, p.qp);
  const double r = s.LogUniform(3, 300);
  for (int i = 0; i < p.qp.nz; i++) x.z(i) = s.Real(r);
  for (int i = 0; i < p.qp.nl; i++) x.l(i) = s.Real(r);
  for (int i = 0; i < p.qp.nv; i++) x.v(i) = s.Real(r);
  Compare(s, c, p, op, x);
}
}  // namespace
// Long runs: many outer iterations with a large proximal weight.
void Long(Src& s, Case& c) {
  GenOpts g;
  g.max_nz = 5;
  g.max_nv = 7;
  g.force_strong = s.Chance(1, 2);
  Vec a, b;
  Problem p;
  switch (s.Pick({5, 2, 2, 1})) {
    case 0: p = FromQp(GenSolvable(s, g)); break;
    case 1: p = FromQp(GenAnyQp(s, g)); break;
    case 2: p = FromQp(GenPrimalInfeasible(s, g, &a, &b)); break;
    default: p = FromQp(GenUnbounded(s, g, &a));
  }
  AlgorithmParameters op = Opts(s, p);
  Slow(s, &op);
  if (s.Chance(1, 2)) op.stall_tol = s.LogUniform(1e-8, 1e-2);
  Compare(s, c, p, op, Guess(s, p.qp), 1e5);
}
// Line searches that give up early and steps that stay short, so that a
// subproblem takes many Newton steps.
void LongInner(Src& s, Case& c) {
  GenOpts g;
  g.max_nz = 3;
  g.max_nl = 1;
  g.max_nv = 6;
  g.force_strong = s.Chance(2, 3);
  Problem p = FromQp(s.Chance(1, 2) ? GenSolvable(s, g) : GenAnyQp(s, g));
  AlgorithmParameters op = Opts(s, p);
  op.beta = s.Chance(1, 2) ? 0.1 + 0.2 * s.Unit() : op.beta;
  op.alpha = s.Chance(1, 2) ? 0.001 + 0.2 * s.Unit() : op.alpha;
  op.eta = 0.2 + 0.299 * s.Unit();
  op.max_newton_iters = s.Int(41, 150);
  op.max_inner_iters = s.Int(35, 90);
  op.max_linesearch_iters = s.Int(1, 8);
  op.nonmonotone_linesearch = s.Chance(1, 8);
  op.inner_tol_min = s.LogUniform(1e-6, 1e-4);
  op.check_feasibility = true;
  op.inner_tol_max = 10 * op.inner_tol_min;
  op.abs_tol = 10 * op.inner_tol_min;
  Start x = Guess(s, p.qp);
  const double r = s.LogUniform(3, 1000);
  for (int i = 0; i < p.qp.nz; i++) x.z(i) = s.Real(r);
  for (int i = 0; i < p.qp.nl; i++) x.l(i) = s.Real(r);
  for (int i = 0; i < p.qp.nv; i++) x.v(i) = s.Real(r);
  Compare(s, c, p, op, x, 2e3);
}
namespace vf {
std::vector<Property> kProperties = {{"dense", Dense, 120000, 1500000},
                                     {"long", Long, 30000, 400000},
                                     {"long_inner", LongInner, 40000, 400000},
                                     {"optimal_control", Mpc, 40000, 400000},
                                     {"line_search", LineSearch, 120000, 1500000}};
}
