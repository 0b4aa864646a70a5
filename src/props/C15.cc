// C15: primal-dual variables, stateful model.
// RUN: plain
// RUN: asan --scale 0.06
#include <limits>

#include "comp.h"
using namespace vf;
using fbstab::FullVariable;
namespace vf {
const char* kPropertyId = "C15";
const char* kRule =
    "A history of 4-25 operations (fill, margin initialisation, scaled "
    "addition incl. with itself, copy, projection, relink, direct writes) on "
    "three variables and two problems of the same size, against a model in "
    "long double: entries within a few ulp, consistent margins equal to b - Az "
    "within the accumulated rounding, everything else bitwise unchanged, "
    "runtime_error exactly when problem data is needed and missing. "
    "Non-trivial: the history contains a scaled addition, a copy and a "
    "projection with effect on linked variables.";
}
static const long double kEps = 2.22e-16L;
struct Model {
  int link = -1;        // problem linked, -1 none
  int consistent = -1;  // problem the margins are consistent with
  long double drift = 0;  // rounding accumulated in the margins
  Start x;              // last stored value
};
static void Run(Src& s, Case& c) {
  Problem p = GenData(s);
  Problem p2 = GenDataLike(s, p);
  Bound d0(p, s.Chance(1, 2)), d1(p2, s.Chance(1, 2));
  const Bound* d[2] = {&d0, &d1};
  const int nz = p.qp.nz, nl = p.qp.nl, nv = p.qp.nv;
  p.Describe(c);
  p2.Describe(c);
  c.Label(p.mpc ? "mpc" : "dense");
  LMat A[2];
  LVec b[2];
  for (int k = 0; k < 2; k++) {
    A[k] = d[k]->qp().A.cast<long double>();
    b[k] = d[k]->qp().b.cast<long double>();
  }
  FullVariable v0(nz, nl, nv), v1(nz, nl, nv), v2(nz, nl, nv);
  FullVariable* v[3] = {&v0, &v1, &v2};
  Model m[3];
  for (int k = 0; k < 3; k++) {
    m[k].x = {Vec::Zero(nz), Vec::Zero(nl), Vec::Zero(nv), Vec::Zero(nv)};
    VF_CHECK(Same(Snap(*v[k]), m[k].x), "a new variable is not zero");
    if (s.Chance(7, 8)) {
      m[k].link = s.Int(0, 1);
      v[k]->LinkData(d[m[k].link]->data);
    }
  }
  // Magnitude of b - Az of problem k at z.
  auto mag = [&](int k, const Vec& z) {
    return MaxAbs(b[k]) +
           MaxAbs(LVec(A[k].cwiseAbs() * z.cwiseAbs().cast<long double>()));
  };
  int checked = 0;
  bool did_axpy = false, did_copy = false, did_project = false;
  const int rounds = s.Int(4, 25);
  for (int t = 0; t < rounds; t++) {
    const int k = s.Int(0, 2), j = s.Int(0, 2);
    FullVariable& x = *v[k];
    Model& mk = m[k];
    const Model old = mk;  // also of x itself when j == k
    const Start src = m[j].x;
    const long double m_src_drift = m[j].drift;
    long double scale = 0;
    LVec z = mk.x.z.cast<long double>(), l = mk.x.l.cast<long double>(),
         w = mk.x.v.cast<long double>(), y = mk.x.y.cast<long double>();
    LVec ez = LVec::Zero(nz), el = LVec::Zero(nl), ew = LVec::Zero(nv),
         ey = LVec::Zero(nv);
    const char* name = "";
    bool threw = false, expect = false;
    auto call = [&](const std::function<void()>& f) {
      try {
        f();
      } catch (const std::runtime_error&) {
        threw = true;
      }
    };
    const int op = s.Pick({2, 3, 5, 4, 3, 2, 3});
    switch (op) {
      case 0: {
        const double a = GenScalar(s);
        name = "Fill";
        c.Note("v%d.Fill(%.17g)", k, a);
        expect = mk.link < 0;
        call([&] { x.Fill(a); });
        z.setConstant(a);
        l.setConstant(a);
        w.setConstant(a);
        break;
      }
      case 1:
        name = "InitializeConstraintMargin";
        c.Note("v%d.InitializeConstraintMargin()", k);
        expect = mk.link < 0;
        call([&] { x.InitializeConstraintMargin(); });
        break;
      case 2: {
        const double a = s.Chance(1, 3) ? s.Signed(2) : GenScalar(s);
        name = "axpy";
        c.Note("v%d.axpy(%.17g, v%d)", k, a, j);
        expect = mk.link < 0;
        call([&] { x.axpy(a, *v[j]); });
        if (expect) break;
        const long double A_ = a;
        scale = a;
        z += A_ * src.z.cast<long double>();
        l += A_ * src.l.cast<long double>();
        w += A_ * src.v.cast<long double>();
        y += A_ * (src.y.cast<long double>() - b[mk.link]);
        auto ulp = [&](const Vec& p0, const Vec& q0) {
          return LVec(4 * kEps * (p0.cwiseAbs().cast<long double>() +
                                  std::abs(A_) * q0.cwiseAbs().cast<long double>()));
        };
        ez = ulp(old.x.z, src.z);
        el = ulp(old.x.l, src.l);
        ew = ulp(old.x.v, src.v);
        ey = ulp(old.x.y, src.y) + 4 * kEps * std::abs(A_) * b[mk.link].cwiseAbs();
        did_axpy = true;
        break;
      }
      case 3:
        name = "Copy";
        c.Note("v%d.Copy(v%d)", k, j);
        call([&] { x.Copy(*v[j]); });
        z = src.z.cast<long double>();
        l = src.l.cast<long double>();
        w = src.v.cast<long double>();
        y = src.y.cast<long double>();
        did_copy = did_copy || j != k;
        break;
      case 4:
        name = "ProjectDuals";
        c.Note("v%d.ProjectDuals()", k);
        call([&] { x.ProjectDuals(); });
        for (int i = 0; i < nv; i++)
          if (w(i) < 0) {
            w(i) = 0;
            did_project = true;
          }
        break;
      case 5: {
        name = "LinkData";
        const int to = s.Int(0, 1);
        c.Note("v%d.LinkData(%d)", k, to);
        x.LinkData(d[to]->data);
        mk.link = to;
        break;
      }
      case 6: {
        name = "a write";
        c.Note("write to v%d", k);
        const int which = s.Int(0, 3);
        Vec& t2 = which == 0 ? x.z() : which == 1 ? x.l() : which == 2 ? x.v()
                                                                     : x.y();
        if (t2.size() == 0) break;
        const int i = s.Int(0, int(t2.size()) - 1);
        t2(i) = GenScalar(s);
        (which == 0 ? z : which == 1 ? l : which == 2 ? w : y)(i) = t2(i);
        if (which == 0 || which == 3) mk.consistent = -1;
        break;
      }
    }
    c.Label(name);
    VF_CHECK(threw == expect, "%s %s", name,
             expect ? "did not throw without problem data"
                    : "threw although problem data was linked");
    if (threw) {
      // The contents after a failed Fill are unspecified.
      if (op == 0) mk.consistent = -1;
      if (op != 0)
        VF_CHECK(Same(Snap(x), old.x), "a failed %s changed the variable",
                 name);
      mk.x = Snap(x);
      c.Label("threw");
      continue;
    }
    // Margins.
    if (op == 0 || op == 1) {
      y = b[mk.link] - A[mk.link] * z;
      ey = 64 * kEps *
           (b[mk.link].cwiseAbs() + A[mk.link].cwiseAbs() * z.cwiseAbs());
      mk.consistent = mk.link;
      mk.drift = 64 * kEps * mag(mk.link, x.z());
    } else if (op == 2) {
      if (mk.consistent != mk.link || m[j].consistent != mk.link)
        mk.consistent = -1;
      // y + a*(y_j - b) = b - A(z + a z_j): the errors add up.
      if (mk.consistent >= 0)
        mk.drift = old.drift + std::abs(scale) * m_src_drift +
                   64 * kEps * (mag(mk.link, old.x.z) +
                                std::abs(scale) * mag(mk.link, src.z));
    } else if (op == 3) {
      const Model from = m[j];
      mk.link = from.link;
      mk.consistent = from.consistent;
      mk.drift = from.drift;
    }
    auto cmp = [&](const Vec& got, const LVec& want, const LVec& e,
                   const char* n) {
      VF_CHECK(got.size() == want.size(), "%s changed the size of %s", name, n);
      for (int i = 0; i < got.size(); i++)
        VF_CHECK(std::abs((long double)got(i) - want(i)) <= e(i),
                 "after %s: %s(%d) of v%d is %.17g, expected %.17Lg", name, n,
                 i, k, got(i), want(i));
    };
    cmp(x.z(), z, ez, "z");
    cmp(x.l(), l, el, "l");
    cmp(x.v(), w, ew, "v");
    cmp(x.y(), y, ey, "y");
    mk.x = Snap(x);
    if (mk.consistent >= 0 && mk.consistent == mk.link) {
      const LVec e = x.y().cast<long double>() -
                     (b[mk.link] - A[mk.link] * x.z().cast<long double>());
      VF_CHECK(MaxAbs(e) <= mk.drift,
               "after %s: the margins of v%d are off b - Az by %.3Lg "
               "(allowance %.3Lg)", name, k, MaxAbs(e), mk.drift);
      checked++;
    }
    // Norms and accessors.
    const long double n = std::sqrt(x.z().cast<long double>().squaredNorm() +
                                    x.l().cast<long double>().squaredNorm() +
                                    x.v().cast<long double>().squaredNorm());
    VF_CHECK(std::abs((long double)x.Norm() - n) <= 1e-13L * n,
             "Norm is %.17g, expected %.17Lg", x.Norm(), n);
    const FullVariable& cx = x;
    for (int i = 0; i < nz; i++)
      VF_CHECK(cx.z(i) == mk.x.z(i) && cx.z()(i) == mk.x.z(i), "accessor z");
    for (int i = 0; i < nl; i++)
      VF_CHECK(cx.l(i) == mk.x.l(i) && cx.l()(i) == mk.x.l(i), "accessor l");
    for (int i = 0; i < nv; i++)
      VF_CHECK(cx.v(i) == mk.x.v(i) && cx.v()(i) == mk.x.v(i) &&
                   cx.y(i) == mk.x.y(i) && cx.y()(i) == mk.x.y(i),
               "accessors v, y");
    // Nothing else moves.
    for (int o = 0; o < 3; o++)
      VF_CHECK(Same(Snap(*v[o]), m[o].x), "%s on v%d changed v%d", name, k, o);
    VF_CHECK(d0.Intact() && d1.Intact(), "%s changed the problem data", name);
  }
  c.Label("margin checks", checked);
  c.nontrivial = did_axpy && did_copy && did_project && checked > 0;
}
namespace vf {
std::vector<Property> kProperties = {{"history", Run, 500000, 8000000}};
}
