// C16: the certificate test accepts exactly the documented certificates.
#include <limits>

#include "comp.h"
using namespace vf;
using fbstab::FullFeasibility;
using fbstab::FullVariable;
using Status = FullFeasibility::FeasibilityStatus;
namespace vf {
const char* kPropertyId = "C16";
const char* kRule =
    "Problems built around candidates that satisfy all certificate conditions "
    "exactly (integer data), then perturbed: single conditions broken by a "
    "unit, by a multiple of the tolerance between 0.3 and 3, or by sign; plus "
    "random candidates and constructed infeasible / unbounded problems. The "
    "verdict must equal the documented conditions evaluated in long double "
    "(cases within rounding of a threshold are set aside), for every candidate "
    "in a history on one object; random margins, repetition and scaling by "
    "powers of two must not change it. Non-trivial: a verdict other than "
    "feasible, or a condition within a factor 4 of its threshold.";
}
enum Tri { NO, YES, MAYBE };
static Tri And(Tri a, Tri b) {
  if (a == NO || b == NO) return NO;
  return (a == YES && b == YES) ? YES : MAYBE;
}
struct Verdict {
  Tri primal, dual;  // infeasibility
  bool near = false;
};
static Verdict Reference(const Qp& q, const Start& x, double tol, bool exact) {
  const LMat H = q.H.cast<long double>(), G = q.G.cast<long double>(),
             A = q.A.cast<long double>();
  const LVec z = x.z.cast<long double>(), l = x.l.cast<long double>(),
             v = x.v.cast<long double>(), za = z.cwiseAbs(), la = l.cwiseAbs(),
             va = v.cwiseAbs();
  const long double E = exact ? 0.0L : 1e-13L;
  Verdict r;
  auto le = [&](long double a, long double bound, long double mag) {
    const long double e = E * mag + 1e-15L * bound;  // tol*w is rounded
    if (bound > 0 && a > 0.25L * bound && a < 4 * bound) r.near = true;
    return a < bound - e || (a <= bound && e == 0) ? YES
           : a > bound + e                          ? NO
                                                    : MAYBE;
  };
  auto neg = [&](long double a, long double mag) {
    const long double e = E * mag;
    return a < -e ? YES : (a > e || (e == 0 && a >= 0)) ? NO : MAYBE;
  };
  const long double w = MaxAbs(z);
  // Dual infeasibility.
  LVec Az = A * z, Aza = A.cwiseAbs() * za;
  r.dual = w > 0 ? YES : NO;
  r.dual = And(r.dual, le(MaxAbs(H * z), tol * w, MaxAbs(H.cwiseAbs() * za)));
  if (q.nl)
    r.dual = And(r.dual, le(MaxAbs(G * z), tol * w, MaxAbs(G.cwiseAbs() * za)));
  r.dual = And(r.dual, le(Az.maxCoeff(), tol * w, MaxAbs(Aza)));
  r.dual = And(r.dual, neg(q.f.cast<long double>().dot(z),
                           q.f.cwiseAbs().cast<long double>().dot(za)));
  if (w > 0 && w < 2e-14L && r.dual == YES) r.dual = MAYBE;
  // Primal infeasibility.
  const long double u = std::max(MaxAbs(l), MaxAbs(v));
  LVec t = A.transpose() * v, ta = A.cwiseAbs().transpose() * va;
  long double p2 = q.b.cast<long double>().dot(v),
              p2a = q.b.cwiseAbs().cast<long double>().dot(va);
  if (q.nl) {
    t += G.transpose() * l;
    ta += G.cwiseAbs().transpose() * la;
    p2 += q.h.cast<long double>().dot(l);
    p2a += q.h.cwiseAbs().cast<long double>().dot(la);
  }
  r.primal = u > 0 ? YES : NO;
  r.primal = And(r.primal, le(MaxAbs(t), tol * u, MaxAbs(ta)));
  r.primal = And(r.primal, neg(p2, p2a));
  r.primal = And(r.primal, le(-v.minCoeff(), tol * u, 0));
  return r;
}
static const char* Name(Status s) {
  switch (s) {
    case Status::FEASIBLE: return "FEASIBLE";
    case Status::PRIMAL_INFEASIBLE: return "PRIMAL_INFEASIBLE";
    case Status::DUAL_INFEASIBLE: return "DUAL_INFEASIBLE";
    default: return "BOTH";
  }
}
// Makes row orthogonal to z by changing one entry (needs an entry +-1 of z).
static void Orthogonal(Mat* M, int row, const Vec& z, int at) {
  const double d = M->row(row).dot(z);
  (*M)(row, at) -= d / z(at);
}
static Vec Ints(Src& s, int n, int r) {
  Vec v(n);
  for (int i = 0; i < n; i++) v(i) = s.Signed(r);
  return v;
}
// Dense problem with an exact certificate for both verdicts.
static Problem Both(Src& s, Start* x) {
  Qp q;
  q.nz = s.Int(1, 5);
  q.nl = s.Int(0, 3);
  q.nv = s.Int(1, 5);
  switch (s.Pick({200, 1, 1, 1})) {
    case 0: break;
    case 1: q.nz = s.Int(10, 60); break;
    case 2: q.nl = s.Int(10, 60); break;
    case 3: q.nv = s.Int(10, 200); break;
  }
  Vec z = Ints(s, q.nz, 3), l = Ints(s, q.nl, 3), v = Ints(s, q.nv, 3);
  v = v.cwiseAbs();
  const int iz = s.Int(0, q.nz - 1), iv = s.Int(0, q.nv - 1);
  z(iz) = s.Chance(1, 2) ? 1 : -1;
  v(iv) = 1;
  Mat M(s.Int(1, q.nz), q.nz);
  for (int i = 0; i < M.rows(); i++) {
    M.row(i) = Ints(s, q.nz, 2).transpose();
    Orthogonal(&M, i, z, iz);
  }
  if (s.Chance(1, 8)) M.setZero();
  q.H = M.transpose() * M;
  q.G.resize(q.nl, q.nz);
  q.A.resize(q.nv, q.nz);
  for (int i = 0; i < q.nl; i++) {
    q.G.row(i) = Ints(s, q.nz, 3).transpose();
    Orthogonal(&q.G, i, z, iz);
  }
  for (int i = 0; i < q.nv; i++) {
    q.A.row(i) = Ints(s, q.nz, 3).transpose();
    Orthogonal(&q.A, i, z, iz);
    if (v(i) == 0) q.A(i, iz) -= z(iz) * s.Int(0, 3);
  }
  Vec t = Vec::Zero(q.nz);
  for (int i = 0; i < q.nv; i++)
    if (i != iv) t += v(i) * q.A.row(i).transpose();
  if (q.nl) t += q.G.transpose() * l;
  q.A.row(iv) = -t.transpose();
  q.f = Ints(s, q.nz, 5);
  q.h = Ints(s, q.nl, 5);
  q.b = Ints(s, q.nv, 5);
  // Sign conditions: usually satisfied.
  if (s.Chance(7, 8)) {
    const double d = q.f.dot(z);
    if (d >= 0) q.f(iz) -= z(iz) * (d + 1 + s.Int(0, 2));
  }
  if (s.Chance(7, 8)) {
    double p = q.b.dot(v);
    if (q.nl) p += q.h.dot(l);
    if (p >= 0) q.b(iv) -= p + 1 + s.Int(0, 2);
  }
  *x = {z, l, v, Vec::Zero(q.nv)};
  return FromQp(q);
}
// Optimal control problem with an exact certificate of one kind.
static Problem OneOcp(Src& s, Start* x) {
  OcpOpts oo;
  oo.max_N = 3;
  oo.max_nx = 3;
  oo.max_nu = 2;
  oo.max_nc = 3;
  oo.allow_real = false;
  Ocp o = GenAnyOcp(s, oo);
  auto round = [&](std::vector<Mat>* v) {
    for (Mat& m : *v) m = m.unaryExpr([](double y) { return std::round(y); });
  };
  for (auto* v : {&o.A, &o.B, &o.c, &o.E, &o.L, &o.d, &o.q, &o.r}) round(v);
  o.x0 = o.x0.unaryExpr([](double y) { return std::round(y); });
  const int n = o.nx + o.nu;
  Vec z = Vec::Zero(o.nz()), l = Vec::Zero(o.nl()), v = Vec::Zero(o.nv());
  const bool dual = s.Chance(1, 2);
  if (dual) {
    for (int i = 0; i <= o.N; i++) {
      Vec zi = Vec::Zero(n);
      if (i) {
        zi.head(o.nx) =
            o.A[i - 1] * z.segment((i - 1) * n, o.nx) +
            o.B[i - 1] * z.segment((i - 1) * n + o.nx, o.nu);
      }
      zi.tail(o.nu) = Ints(s, o.nu, 2);
      const int at = o.nx + s.Int(0, o.nu - 1);
      zi(at) = s.Chance(1, 2) ? 1 : -1;
      z.segment(i * n, n) = zi;
      Mat M(s.Int(1, 2), n);
      for (int k = 0; k < M.rows(); k++) {
        M.row(k) = Ints(s, n, 2).transpose();
        Orthogonal(&M, k, zi, at);
      }
      Mat H = M.transpose() * M;
      o.Q[i] = H.topLeftCorner(o.nx, o.nx);
      o.R[i] = H.bottomRightCorner(o.nu, o.nu);
      o.S[i] = H.bottomLeftCorner(o.nu, o.nx);
      Mat EL(o.nc, n);
      EL << o.E[i], o.L[i];
      for (int k = 0; k < o.nc; k++) {
        Orthogonal(&EL, k, zi, at);
        EL(k, at) -= zi(at) * s.Int(0, 2);
      }
      o.E[i] = EL.leftCols(o.nx);
      o.L[i] = EL.rightCols(o.nu);
    }
    if (s.Chance(7, 8)) {
      Qp q = o.Dense();
      const double d = q.f.dot(z);
      const int at = o.N * n + o.nx;  // a control at the last stage
      if (d >= 0 && z(at) != 0) o.r[o.N](0) -= (d + 1) / z(at);
    }
    // The other certificate: random.
    l = Ints(s, o.nl(), 3);
    v = Ints(s, o.nv(), 3);
  } else {
    for (int i = o.N; i >= 0; i--) {
      Vec vi = Ints(s, o.nc, 2).cwiseAbs();
      const int at = s.Int(0, o.nc - 1);
      vi(at) = 1;
      v.segment(i * o.nc, o.nc) = vi;
      Vec li = o.E[i].transpose() * vi, t = o.L[i].transpose() * vi;
      if (i < o.N) {
        const Vec lp = l.segment((i + 1) * o.nx, o.nx);
        li += o.A[i].transpose() * lp;
        t += o.B[i].transpose() * lp;
      }
      o.L[i].row(at) -= t.transpose();
      l.segment(i * o.nx, o.nx) = li;
    }
    Qp q = o.Dense();
    double p = q.b.dot(v) + q.h.dot(l);
    if (p >= 0 && s.Chance(7, 8)) {
      for (int k = 0; k < o.nv(); k++)
        if (v(k) == 1) {  // b = -d
          o.d[k / o.nc](k % o.nc) += p + 1;
          break;
        }
    }
    z = Ints(s, o.nz(), 3);
  }
  *x = {z, l, v, Vec::Zero(o.nv())};
  return FromOcp(o);
}
static void Run(Src& s, Case& c) {
  Problem p;
  Start cand;
  bool exact = true;
  const int kind = s.Pick({5, 3, 1, 1});
  double tol = s.Chance(1, 12) ? 0.0
               : s.Chance(1, 2) ? 1e-8
                                : s.LogUniform(1e-14, 0.5);
  switch (kind) {
    case 0: p = Both(s, &cand); break;
    case 1: p = OneOcp(s, &cand); break;
    case 2: {
      Vec a, b;
      p = FromQp(GenPrimalInfeasible(s, GenOpts(), &a, &b));
      cand = Zeros(p.qp);
      cand.l = a;
      cand.v = b;
      if (s.Chance(1, 2)) cand.z = Ints(s, p.qp.nz, 3);
      exact = false;
      break;
    }
    default: {
      Vec a;
      p = FromQp(GenUnbounded(s, GenOpts(), &a));
      cand = Zeros(p.qp);
      cand.z = a;
      if (s.Chance(1, 2)) cand.v = Ints(s, p.qp.nv, 3);
      exact = false;
    }
  }
  c.Label(p.mpc ? "mpc" : "dense");
  // Perturb the data by a multiple of the tolerance.
  if (s.Chance(1, 2) && !p.mpc) {
    exact = false;
    Qp& q = p.qp;
    const double by = (0.3 + 2.7 * s.Unit()) * tol * (s.Chance(1, 2) ? 1 : -1);
    const int i = s.Int(0, q.nz - 1);
    switch (s.Int(0, 3)) {
      case 0: q.H(i, i) += std::abs(by); break;
      case 1: if (q.nl) q.G(s.Int(0, q.nl - 1), i) += by; break;
      case 2: q.A(s.Int(0, q.nv - 1), i) += by; break;
      case 3: {
        const int j = s.Int(0, q.nz - 1);
        q.H(i, j) += by;
        if (j != i) q.H(j, i) += by;
        break;
      }
    }
  }
  // Or by a unit.
  if (s.Chance(1, 6) && !p.mpc) {
    Qp& q = p.qp;
    const int i = s.Int(0, q.nz - 1);
    const double by = s.Chance(1, 2) ? 1 : -1;
    switch (s.Int(0, 3)) {
      case 0: q.H(i, i) += 1; break;
      case 1: if (q.nl) q.G(s.Int(0, q.nl - 1), i) += by; break;
      case 2: q.A(s.Int(0, q.nv - 1), i) += by; break;
      case 3: q.b(s.Int(0, q.nv - 1)) += 5 * by; break;
    }
  }
  Bound d(p, s.Chance(1, 2));
  const Qp& q = d.qp();
  Problem p2 = GenDataLike(s, p);
  Bound d2(p2);
  p.Describe(c);
  FullFeasibility feas(q.nz, q.nl, q.nv);
  FullVariable x(q.nz, q.nl, q.nv);
  if (s.Chance(1, 2)) {
    feas.LinkData(d2.data);
    FillVar(s, &x);
    x.y() = GenV(s, q.nv);
    feas.CheckFeasibility(x, 1e-8);
  }
  feas.LinkData(d.data);
  const int rounds = s.Int(1, 4);
  for (int t = 0; t < rounds; t++) {
    Start y = cand;
    bool ex = exact;
    const int change = s.Pick({4, 2, 3, 2, 2, 1, 1});
    switch (change) {
      case 0: break;
      case 1: {  // one entry by a unit
        const int i = s.Int(0, q.nz + q.nl + q.nv - 1);
        double& e = i < q.nz           ? y.z(i)
                    : i < q.nz + q.nl ? y.l(i - q.nz)
                                      : y.v(i - q.nz - q.nl);
        e += s.Chance(1, 2) ? 1 : -1;
        break;
      }
      case 2: {  // one entry by a multiple of the tolerance
        ex = false;
        const int i = s.Int(0, q.nz + q.nl + q.nv - 1);
        double& e = i < q.nz           ? y.z(i)
                    : i < q.nz + q.nl ? y.l(i - q.nz)
                                      : y.v(i - q.nz - q.nl);
        e += (0.3 + 2.7 * s.Unit()) * tol * (s.Chance(1, 2) ? 1 : -1);
        break;
      }
      case 3:  // signs
        if (s.Chance(1, 2)) y.z = -y.z;
        if (s.Chance(1, 2)) {
          y.l = -y.l;
          y.v = -y.v;
        }
        if (s.Chance(1, 2)) y.v = -y.v;
        break;
      case 4:  // drop parts
        if (s.Chance(1, 2)) y.z.setZero();
        if (s.Chance(1, 2)) y.l.setZero();
        if (s.Chance(1, 2)) y.v.setZero();
        break;
      case 5:
        ex = false;
        y.z = GenV(s, q.nz);
        y.l = GenV(s, q.nl);
        y.v = GenV(s, q.nv);
        break;
      case 6:  // rescale the parts against each other
        ex = false;
        y.z *= s.LogUniform(1e-3, 1e3);
        if (s.Chance(1, 2)) y.l *= s.LogUniform(1e-3, 1e3);
        y.v *= s.LogUniform(1e-3, 1e3);
        break;
    }
    x.z() = y.z;
    x.l() = y.l;
    x.v() = y.v;
    x.y() = GenV(s, q.nv);
    y.y = x.y();
    c.Note("tol=%.17g", tol);
    NoteStart(c, y);
    const Status st = feas.CheckFeasibility(x, tol);
    VF_CHECK(Same(Snap(x), y), "the candidate was modified");
    VF_CHECK(d.Intact() && d2.Intact(), "the data were modified");
    Verdict ref = Reference(q, y, tol, ex);
    const bool pi = st == Status::PRIMAL_INFEASIBLE || st == Status::BOTH,
               di = st == Status::DUAL_INFEASIBLE || st == Status::BOTH;
    VF_CHECK(!(ref.primal == YES && !pi), "verdict %s, but (l, v) satisfies "
             "the conditions of primal infeasibility", Name(st));
    VF_CHECK(!(ref.primal == NO && pi), "verdict %s, but (l, v) is no "
             "certificate of primal infeasibility", Name(st));
    VF_CHECK(!(ref.dual == YES && !di), "verdict %s, but z satisfies the "
             "conditions of dual infeasibility", Name(st));
    VF_CHECK(!(ref.dual == NO && di), "verdict %s, but z is no certificate of "
             "dual infeasibility", Name(st));
    if (ref.primal == MAYBE || ref.dual == MAYBE) c.Label("undecided");
    c.Label(Name(st));
    if (ref.near) c.Label("near a threshold");
    if (st != Status::FEASIBLE || ref.near) c.nontrivial = true;
    // Margins, repetition, scaling.
    x.y() = GenV(s, q.nv);
    const bool scale = s.Chance(1, 2);
    if (scale) {
      const double f = std::ldexp(1.0, s.Signed(30));
      // A primal candidate below 1e-14 counts as zero.
      const double w = InfNorm(y.z) * std::min(f, 1.0);
      if (w == 0 || w > 1e-12) {
        x.z() *= f;
        x.l() *= f;
        x.v() *= f;
      }
    }
    const Status st2 = feas.CheckFeasibility(x, tol);
    VF_CHECK(st2 == st, "verdict %s, after %s %s", Name(st),
             scale ? "scaling by a power of two and changing the margins"
                   : "changing the margins", Name(st2));
  }
}
namespace vf {
std::vector<Property> kProperties = {{"run", Run, 900000, 15000000}};
}
