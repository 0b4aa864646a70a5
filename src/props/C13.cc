// C13: Newton-step solvers solve the documented linearised system.
#include <limits>

#include "comp.h"
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/riccati_linear_solver.h"
using namespace vf;
using fbstab::FullResidual;
using fbstab::FullVariable;
namespace vf {
const char* kPropertyId = "C13";
const char* kRule =
    "Generated dense / optimal control data, iterate, centre, sigma, alpha and "
    "right-hand sides, including exact zeros and points near the origin and "
    "the axes of the complementarity function. system: the returned step is "
    "substituted into the documented system assembled in long double (rows of "
    "the complementarity block within a few ulp, the others within a backward "
    "error allowance); repeated solves and re-used objects must agree bitwise "
    "with fresh ones; nothing else is modified. derivative: the central "
    "difference of the real subproblem residual along the step equals the "
    "right-hand side at smooth points. Non-trivial: non-zero solution with an "
    "inequality row whose gradient has both entries positive (system), a "
    "smooth point (derivative).";
}
static const long double kEps = 2.22e-16L;

class Lin {
 public:
  Lin(const Problem& p) {
    if (p.mpc)
      r_.reset(new fbstab::RiccatiLinearSolver(p.ocp.N, p.ocp.nx, p.ocp.nu,
                                               p.ocp.nc));
    else
      d_.reset(new fbstab::DenseCholeskySolver(p.qp.nz, p.qp.nl, p.qp.nv));
  }
  void Link(const Bound& b) {
    if (r_) r_->LinkData(b.mpc.get());
    else d_->LinkData(b.dense.get());
  }
  void Alpha(double a) {
    if (r_) r_->SetAlpha(a);
    else d_->SetAlpha(a);
  }
  bool Init(const FullVariable& x, const FullVariable& xb, double sigma) {
    return r_ ? r_->Initialize(x, xb, sigma) : d_->Initialize(x, xb, sigma);
  }
  bool Solve(const FullResidual& r, FullVariable* dx) {
    return r_ ? r_->Solve(r, dx) : d_->Solve(r, dx);
  }

 private:
  std::unique_ptr<fbstab::RiccatiLinearSolver> r_;
  std::unique_ptr<fbstab::DenseCholeskySolver> d_;
};

struct Point {
  Start x, xb;
  double sigma, alpha;
};
// Admissible gradients of the penalized Fischer-Burmeister function at (a, b)
// when `a` is known up to da, with their error bounds.
struct Grad {
  long double g, m;    // with respect to a, b
  long double eg, em;  // allowances
};
static std::vector<Grad> Gradients(long double a, long double b,
                                   long double al, long double da) {
  std::vector<Grad> out;
  const long double r = std::sqrt(a * a + b * b);
  const long double c = al * (1 - 1 / std::sqrt(2.0L));
  const long double e0 = 8 * kEps;
  if (r + da < 1e-10L) out.push_back({c, c, e0, e0});
  if (a == 0 && b == 0 && da == 0) return out;
  if (r > da) {
    const long double e = al * std::min(2.0L, 2 * da / (r - da)) + e0;
    const long double g = al * (1 - a / r), m = al * (1 - b / r);
    const long double pg = (1 - al) * b, pm = (1 - al) * std::max(a, 0.0L);
    const bool pos = a > da && b > 0, kink = std::abs(a) <= da && b > 0;
    if (pos || kink)
      out.push_back({g + pg, m + pm, e + e0 * std::abs(pg),
                     e + (1 - al) * da + e0 * std::abs(pm)});
    if (!pos) out.push_back({g, m, e, e});
  } else {
    out.push_back({al, al, al + (1 - al) * std::abs(b), al + (1 - al) * da});
  }
  return out;
}
static void Load(const Start& s, FullVariable* x) {
  x->z() = s.z;
  x->l() = s.l;
  x->v() = s.v;
  x->y() = s.y;
}
static Point GenPoint(Src& s, const Bound& d) {
  const Qp& q = d.qp();
  Point p;
  p.x = {GenV(s, q.nz), GenV(s, q.nl), GenV(s, q.nv), Vec()};
  p.xb = {GenV(s, q.nz), GenV(s, q.nl), GenV(s, q.nv), Vec()};
  if (s.Chance(1, 4)) p.xb = p.x;
  p.sigma = s.Chance(1, 4) ? 1.0 : s.LogUniform(1e-9, 1e2);
  p.alpha = s.Chance(1, 2) ? 0.95 : 0.001 + 0.998 * s.Unit();
  const bool consistent = s.Chance(1, 2);
  p.x.y = consistent ? Vec(q.b - q.A * p.x.z) : GenV(s, q.nv);
  p.xb.y = consistent ? Vec(q.b - q.A * p.xb.z) : GenV(s, q.nv);
  // Special complementarity pairs.
  for (int i = 0; i < q.nv; i++) {
    if (!s.Chance(1, 3)) continue;
    const double t[] = {0, 1, -1, 1e-14, 1e-12, 1e-8, 1e-3, -1e-14, 1e3};
    p.x.v(i) = t[s.Below(9)];
    if (s.Chance(1, 2)) p.xb.v(i) = p.x.v(i);
    if (!consistent || s.Chance(1, 4)) p.x.y(i) = t[s.Below(9)];
  }
  return p;
}
static void NotePoint(Case& c, const Point& p) {
  c.Note("sigma=%.17g alpha=%.17g", p.sigma, p.alpha);
  NoteStart(c, p.x);
  NoteStart(c, p.xb);
}
static void CheckSystem(Case& c, const Bound& d, const Point& p,
                        const Start& r, const Start& dx) {
  const Qp& q = d.qp();
  const LMat H = q.H.cast<long double>(), G = q.G.cast<long double>(),
             A = q.A.cast<long double>();
  const LVec z = dx.z.cast<long double>(), l = dx.l.cast<long double>(),
             v = dx.v.cast<long double>();
  const long double sg = p.sigma;
  // Margins.
  const LVec Az = A * z, Aza = A.cwiseAbs() * z.cwiseAbs();
  for (int i = 0; i < q.nv; i++)
    VF_CHECK(std::abs((long double)dx.y(i) - (q.b(i) - Az(i))) <=
                 64 * kEps * (std::abs((long double)q.b(i)) + Aza(i)),
             "margin %d of the step is %.17g, expected %.17Lg", i, dx.y(i),
             q.b(i) - Az(i));
  // Complementarity rows.
  bool both = false;
  long double gmax = 0;
  // Bounds on the weights of the constraint rows.
  LVec glo = LVec::Constant(q.nv, 1e300L), ghi = LVec::Zero(q.nv);
  for (int i = 0; i < q.nv; i++) {
    const double ad = p.x.y(i) + p.sigma * (p.x.v(i) - p.xb.v(i));
    const long double a = (long double)p.x.y(i) +
                          sg * ((long double)p.x.v(i) - p.xb.v(i)),
                      b = p.x.v(i);
    const long double da =
        (ad == a && (p.x.v(i) == p.xb.v(i)))
            ? 0.0L
            : 4 * kEps * (std::abs((long double)p.x.y(i)) +
                          sg * (std::abs(b) + std::abs((long double)p.xb.v(i))));
    bool ok = false;
    long double best = 1e300L, al = 0;
    for (const Grad& g : Gradients(a, b, p.alpha, da)) {
      const long double mu = g.m + sg * g.g, emu = g.em + sg * g.eg;
      const long double res = -g.g * Az(i) + mu * v(i) - r.v(i);
      const long double allow =
          g.eg * std::abs(Az(i)) + emu * std::abs(v(i)) +
          64 * kEps * (std::abs(g.g) * Aza(i) + mu * std::abs(v(i)) +
                       std::abs((long double)r.v(i)));
      if (std::abs(res) <= allow) ok = true;
      if (std::abs(res) < best) best = std::abs(res), al = allow;
      if (g.g > 0.01 && g.m > 0.01) both = true;
      if (mu > 0) gmax = std::max(gmax, g.g / mu);
      if (mu > 0) {
        ghi(i) = std::max(ghi(i), g.g / mu);
        glo(i) = std::min(glo(i), std::max(0.0L, g.g / mu));
      }
    }
    VF_CHECK(ok, "complementarity row %d (y=%.17g v=%.17g vbar=%.17g): "
             "residual %.3Lg exceeds %.3Lg", i, p.x.y(i), p.x.v(i),
             p.xb.v(i), best, al);
  }
  // Stationarity and equality rows: backward error of a factorisation of the
  // quasidefinite matrix [H + sI + A'GammaA, G'; G, -sI].
  LVec rz = H * z + sg * z + A.transpose() * v - r.z.cast<long double>();
  LVec rl = sg * l - r.l.cast<long double>();
  LVec mz = H.cwiseAbs() * z.cwiseAbs() + sg * z.cwiseAbs() +
            A.cwiseAbs().transpose() * v.cwiseAbs() +
            r.z.cwiseAbs().cast<long double>();
  LVec ml = sg * l.cwiseAbs() + r.l.cwiseAbs().cast<long double>();
  long double ng = 0;
  if (q.nl) {
    rz += G.transpose() * l;
    rl -= G * z;
    mz += G.cwiseAbs().transpose() * l.cwiseAbs();
    ml += G.cwiseAbs() * z.cwiseAbs();
    ng = G.norm();
  }
  const long double nE = H.norm() + sg + A.norm() * A.norm() * gmax;
  const long double K = nE + ng + sg;
  const long double sol = MaxAbs(z) + MaxAbs(l) + MaxAbs(v);
  const long double mag = MaxAbs(mz) + MaxAbs(ml);
  // Growth of the unpivoted factorisation.
  const long double growth = 1 + ng * ng / (sg * sg) + ng / sg;
  const long double rhs = MaxAbs(r.z.cast<long double>()) +
                          MaxAbs(r.l.cast<long double>()) +
                          A.norm() * MaxAbs(r.v.cast<long double>()) * 1e3L;
  const long double allow =
      100 * kEps * q.nz * (K * sol * growth + mag + rhs);
  const long double worst = std::max(MaxAbs(rz), MaxAbs(rl));
  if (getenv("VF_DEBUG"))
    c.Label("res/allow 1e" +
            std::to_string(int(std::floor(std::log10(double(worst / allow) + 1e-20)))));
  if (worst > allow) {
    // Nothing can be asked of a matrix that is singular to working precision
    // (a pivot may cancel to exactly zero).
    auto range = [&](const LVec& w) {
      LMat E = H + A.transpose() * w.asDiagonal() * A;
      E.diagonal().array() += sg;
      Eigen::SelfAdjointEigenSolver<LMat> es(E, Eigen::EigenvaluesOnly);
      return std::make_pair(es.eigenvalues()(0), es.eigenvalues()(q.nz - 1));
    };
    if (range(glo).first <= 64 * kEps * q.nz * range(ghi).second) {
      c.Label("singular to working precision");
      return;
    }
  }
  VF_CHECK(!(MaxAbs(rz) > allow), "stationarity row: residual %.3Lg exceeds "
           "%.3Lg", MaxAbs(rz), allow);
  VF_CHECK(!(MaxAbs(rl) > allow), "equality row: residual %.3Lg exceeds %.3Lg",
           MaxAbs(rl), allow);
  VF_CHECK(std::isfinite(double(worst)), "the step is not finite");
  const bool sharp = allow <= 1e-6L * mag;
  c.Label(sharp ? "sharp" : "loose");
  if (sharp && both && sol > 0) c.nontrivial = true;
}
static void System(Src& s, Case& c) {
  Problem p = GenData(s);
  Bound d(p, s.Chance(1, 2));
  const Qp& q = d.qp();
  c.Label(p.mpc ? "mpc" : "dense");
  Lin lin(p);
  FullVariable x(q.nz, q.nl, q.nv), xb(q.nz, q.nl, q.nv), dx(q.nz, q.nl, q.nv);
  FullResidual r(q.nz, q.nl, q.nv);
  if (s.Chance(1, 4)) {
    // Something else before, with other data.
    Problem p0 = GenDataLike(s, p);
    Bound d0(p0);
    Point pt = GenPoint(s, d0);
    lin.Link(d0);
    lin.Alpha(pt.alpha);
    Load(pt.x, &x);
    Load(pt.xb, &xb);
    if (lin.Init(x, xb, pt.sigma)) {
      r.z() = GenV(s, q.nz);
      r.l() = GenV(s, q.nl);
      r.v() = GenV(s, q.nv);
      lin.Solve(r, &dx);
    }
    c.Label("used before");
  }
  p.Describe(c);
  lin.Link(d);
  const int points = s.Int(1, 2);
  for (int t = 0; t < points; t++) {
    Point pt = GenPoint(s, d);
    NotePoint(c, pt);
    lin.Alpha(pt.alpha);
    Load(pt.x, &x);
    Load(pt.xb, &xb);
    const bool ok = lin.Init(x, xb, pt.sigma);
    VF_CHECK(Same(Snap(x), pt.x) && Same(Snap(xb), pt.xb),
             "Initialize modified an iterate");
    VF_CHECK(d.Intact(), "Initialize modified the data");
    Lin fresh(p);
    fresh.Link(d);
    fresh.Alpha(pt.alpha);
    VF_CHECK(fresh.Init(x, xb, pt.sigma) == ok,
             "Initialize depends on earlier use of the object");
    if (!ok) {
      // Only for numerically singular matrices.
      VF_CHECK(pt.sigma < 1e-3, "factorisation failed with sigma = %g",
               pt.sigma);
      c.Label("factorisation failed");
      continue;
    }
    // The factorisation must not refer to the iterate any more.
    if (s.Chance(1, 2)) {
      x.z().setConstant(7);
      x.v().setConstant(-3);
      x.y().setConstant(11);
      xb.v().setConstant(2);
    }
    const int nrhs = s.Int(1, 3);
    std::vector<Start> rhs, sol;
    for (int k = 0; k < nrhs; k++) {
      Start b = {GenV(s, q.nz), GenV(s, q.nl), GenV(s, q.nv), Vec()};
      if (k && s.Chance(1, 3)) b = rhs[0];
      NoteStart(c, b);
      r.z() = b.z;
      r.l() = b.l;
      r.v() = b.v;
      const double junk =
          s.Chance(1, 2) ? std::numeric_limits<double>::quiet_NaN() : 3.0;
      dx.z().setConstant(junk);
      dx.l().setConstant(junk);
      dx.v().setConstant(junk);
      dx.y().setConstant(junk);
      VF_CHECK(lin.Solve(r, &dx), "Solve failed");
      VF_CHECK(SameBits(r.z(), b.z) && SameBits(r.l(), b.l) &&
                   SameBits(r.v(), b.v), "Solve modified the right-hand side");
      VF_CHECK(d.Intact(), "Solve modified the data");
      Start y = Snap(dx);
      FullVariable dy(q.nz, q.nl, q.nv);
      VF_CHECK(fresh.Solve(r, &dy), "Solve failed");
      VF_CHECK(Same(y, Snap(dy)),
               "the step depends on earlier use of the object");
      for (int i = 0; i < k; i++)
        if (Same(rhs[i], b))
          VF_CHECK(Same(sol[i], y), "two solves with the same right-hand side "
                   "differ");
      rhs.push_back(b);
      sol.push_back(y);
      CheckSystem(c, d, pt, b, y);
    }
  }
}
static void Derivative(Src& s, Case& c) {
  Problem p = GenData(s);
  Bound d(p);
  const Qp& q = d.qp();
  p.Describe(c);
  c.Label(p.mpc ? "mpc" : "dense");
  FullVariable x(q.nz, q.nl, q.nv), xb(q.nz, q.nl, q.nv), dx(q.nz, q.nl, q.nv),
      w(q.nz, q.nl, q.nv);
  FullResidual r(q.nz, q.nl, q.nv), ra(q.nz, q.nl, q.nv), rb(q.nz, q.nl, q.nv);
  for (FullVariable* v : {&x, &xb, &dx, &w}) v->LinkData(d.data);
  for (FullResidual* v : {&r, &ra, &rb}) v->LinkData(d.data);
  auto gen = [&](int n) {
    Vec v(n);
    for (int i = 0; i < n; i++) v(i) = s.Real(3);
    return v;
  };
  x.z() = gen(q.nz); x.l() = gen(q.nl); x.v() = gen(q.nv);
  xb.z() = gen(q.nz); xb.l() = gen(q.nl); xb.v() = gen(q.nv);
  x.InitializeConstraintMargin();
  xb.InitializeConstraintMargin();
  const double sigma = s.LogUniform(0.01, 10), alpha = 0.05 + 0.9 * s.Unit();
  c.Note("sigma=%.17g alpha=%.17g", sigma, alpha);
  NoteStart(c, Snap(x));
  NoteStart(c, Snap(xb));
  Lin lin(p);
  lin.Link(d);
  lin.Alpha(alpha);
  ra.SetAlpha(alpha);
  rb.SetAlpha(alpha);
  if (!lin.Init(x, xb, sigma)) throw Discard();
  r.z() = gen(q.nz); r.l() = gen(q.nl); r.v() = gen(q.nv);
  if (!lin.Solve(r, &dx)) throw Discard();
  // Step length such that no kink is crossed.
  const double size = std::max(InfNorm(dx.z()),
                               std::max(InfNorm(dx.l()), InfNorm(dx.v())));
  if (!(size > 0) || size > 1e4) throw Discard();
  const Vec Adz = q.A * dx.z();
  double t = 1e-4 / size;
  double curv = 0;
  for (int i = 0; i < q.nv; i++) {
    const double a = x.y(i) + sigma * (x.v(i) - xb.v(i)), b = x.v(i);
    const double da = -Adz(i) + sigma * dx.v(i), db = dx.v(i);
    const double rr = std::hypot(a, b), dd = std::hypot(da, db);
    if (rr < 1e-2) throw Discard();
    if (std::abs(a) <= 2 * t * std::abs(da) ||
        std::abs(b) <= 2 * t * std::abs(db))
      throw Discard();
    curv = std::max(curv, 4 * dd * dd * dd / (rr * rr));
  }
  auto at = [&](double step, FullResidual* out) {
    w.Copy(x);
    w.axpy(step, dx);
    out->InnerResidual(w, xb, sigma);
  };
  at(t, &ra);
  at(-t, &rb);
  const double mag = 1 + q.H.norm() * 5 + q.A.norm() * 10 + q.G.norm() * 10 +
                     q.f.norm() + q.b.norm() + q.h.norm();
  const double allow = 1e-13 * mag * mag / t + curv * t * t + 1e-6 * (1 + size) * 1e-3;
  if (allow > 1e-2) throw Discard();
  c.nontrivial = true;
  auto chk = [&](const Vec& a, const Vec& b, const Vec& want, const char* n) {
    for (int i = 0; i < want.size(); i++) {
      const double fd = (a(i) - b(i)) / (2 * t);
      VF_CHECK(std::abs(fd - want(i)) <= allow,
               "%s row %d: the residual changes by %.10g along the step, the "
               "right-hand side is %.10g (allowance %g)", n, i, fd, want(i),
               allow);
    }
  };
  chk(ra.z(), rb.z(), r.z(), "stationarity");
  chk(ra.l(), rb.l(), r.l(), "equality");
  chk(ra.v(), rb.v(), r.v(), "complementarity");
}
namespace vf {
std::vector<Property> kProperties = {{"system", System, 200000, 4000000},
                                     {"derivative", Derivative, 200000,
                                      4000000}};
}
