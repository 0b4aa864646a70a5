// C14: residual evaluations match their definitions.
#include <limits>

#include "comp.h"
using namespace vf;
using fbstab::FullResidual;
using fbstab::FullVariable;
namespace vf {
const char* kPropertyId = "C14";
const char* kRule =
    "A history of operations (evaluate each residual, fill, negate, set alpha, "
    "relink, change the point) on two residual objects over generated dense / "
    "optimal control data; after every operation the stored residual, the "
    "norms and the merit are compared with long double formulas (componentwise "
    "within 64 ulp of the sum of magnitudes). exact: integer data with a known "
    "solution and integer perturbations of it; the residuals must vanish "
    "exactly at solutions and only there. Non-trivial: at least one "
    "evaluation of each kind at a non-trivial point (model), a perturbed point "
    "or a solution with an active constraint (exact).";
}
static const long double kEps = 2.22e-16L;
struct Ref {
  LVec z, l, v;     // values
  LVec ez, el, ev;  // allowances
  void Size(int nz, int nl, int nv) {
    z = ez = LVec::Zero(nz);
    l = el = LVec::Zero(nl);
    v = ev = LVec::Zero(nv);
  }
};
enum Which { INNER, NATURAL, PENALIZED };
static Ref Evaluate(const Qp& q, Which w, const Start& x, const Start& xb,
                    double sigma, double alpha) {
  Ref r;
  const long double s = sigma, al = alpha, E = 64 * kEps;
  const LMat H = q.H.cast<long double>(), G = q.G.cast<long double>(),
             A = q.A.cast<long double>();
  auto L = [](const Vec& v) { return LVec(v.cast<long double>()); };
  const LVec z = L(x.z), l = L(x.l), v = L(x.v);
  r.z = H * z + L(q.f) + A.transpose() * v;
  r.ez = H.cwiseAbs() * z.cwiseAbs() + L(q.f).cwiseAbs() +
         A.cwiseAbs().transpose() * v.cwiseAbs();
  r.l = L(q.h);
  r.el = L(q.h).cwiseAbs();
  if (q.nl) {
    r.z += G.transpose() * l;
    r.ez += G.cwiseAbs().transpose() * l.cwiseAbs();
    r.l -= G * z;
    r.el += G.cwiseAbs() * z.cwiseAbs();
  }
  if (w == INNER) {
    const LVec dz = z - L(xb.z), dl = l - L(xb.l);
    r.z += s * dz;
    r.ez += s * (z.cwiseAbs() + L(xb.z).cwiseAbs());
    if (q.nl) {
      r.l += s * dl;
      r.el += s * (l.cwiseAbs() + L(xb.l).cwiseAbs());
    }
  }
  r.ez *= E;
  r.el *= E;
  r.v.resize(q.nv);
  r.ev.resize(q.nv);
  for (int i = 0; i < q.nv; i++) {
    long double a = x.y(i), b = x.v(i), ea = 0;
    if (w == INNER) {
      const long double vb = xb.v(i);
      a += s * (b - vb);
      ea = 4 * kEps * (std::abs((long double)x.y(i)) +
                       s * (std::abs(b) + std::abs(vb)));
    }
    const long double ab = std::max(a, 0.0L) * std::max(b, 0.0L);
    const long double em = 16 * kEps * (std::abs(a) + std::abs(b)) + 2 * ea;
    const long double eb = 16 * kEps * ab + ea * std::max(b, 0.0L);
    switch (w) {
      case INNER:
        r.v(i) = al * (a + b - std::sqrt(a * a + b * b)) + (1 - al) * ab;
        r.ev(i) = al * em + (1 - al) * eb;
        break;
      case NATURAL:
        r.v(i) = std::min(a, b);
        r.ev(i) = 0;
        break;
      case PENALIZED:
        r.v(i) = al * std::min(a, b) + (1 - al) * ab;
        r.ev(i) = al * em + (1 - al) * eb;
        break;
    }
  }
  return r;
}
static void Compare(const FullResidual& r, const Ref& m, const char* op) {
  auto vec = [&](const Vec& a, const LVec& b, const LVec& e, const char* n) {
    VF_CHECK(a.size() == b.size(), "after %s: %s has size %d", op, n,
             int(a.size()));
    for (int i = 0; i < a.size(); i++)
      VF_CHECK(std::abs((long double)a(i) - b(i)) <= e(i),
               "after %s: %s(%d) is %.17g, expected %.17Lg (allowance %.3Lg)",
               op, n, i, a(i), b(i), e(i));
  };
  vec(r.z(), m.z, m.ez, "z");
  vec(r.l(), m.l, m.el, "l");
  vec(r.v(), m.v, m.ev, "v");
  const long double nz = r.z().cast<long double>().norm(),
                    nl = r.l().cast<long double>().norm(),
                    nv = r.v().cast<long double>().norm();
  const long double n = std::sqrt(nz * nz + nl * nl + nv * nv);
  auto num = [&](double a, long double b, const char* name) {
    VF_CHECK(std::abs((long double)a - b) <= 1e-13L * b,
             "after %s: %s is %.17g, that of the stored residual is %.17Lg",
             op, name, a, b);
  };
  num(r.z_norm(), nz, "z_norm");
  num(r.l_norm(), nl, "l_norm");
  num(r.v_norm(), nv, "v_norm");
  num(r.Norm(), n, "Norm");
  num(r.Merit(), 0.5L * n * n, "Merit");
}
static void Model(Src& s, Case& c) {
  Problem p = GenData(s);
  Problem p2 = GenDataLike(s, p);
  Bound d0(p, s.Chance(1, 2)), d1(p2, s.Chance(1, 2));
  const Bound* d[2] = {&d0, &d1};
  const Qp& q = d0.qp();
  p.Describe(c);
  p2.Describe(c);
  c.Label(p.mpc ? "mpc" : "dense");
  FullResidual r0(q.nz, q.nl, q.nv), r1(q.nz, q.nl, q.nv);
  FullResidual* r[2] = {&r0, &r1};
  FullVariable x(q.nz, q.nl, q.nv), xb(q.nz, q.nl, q.nv);
  Ref m[2];
  double alpha[2] = {0, 0};
  int link[2] = {0, 0};
  for (int k = 0; k < 2; k++) {
    m[k].Size(q.nz, q.nl, q.nv);
    Compare(*r[k], m[k], "construction");
    alpha[k] = s.Chance(1, 2) ? 0.95 : 0.001 + 0.998 * s.Unit();
    r[k]->SetAlpha(alpha[k]);
    r[k]->LinkData(d[0]->data);
  }
  auto move = [&](FullVariable* v) {
    FillVar(s, v);
    if (s.Chance(1, 2)) {
      v->LinkData(d[s.Below(2)]->data);
      v->InitializeConstraintMargin();
    } else {
      v->y() = GenV(s, q.nv);
    }
    NoteStart(c, Snap(*v));
  };
  move(&x);
  move(&xb);
  int seen = 0;
  const int rounds = s.Int(3, 12);
  for (int t = 0; t < rounds; t++) {
    const int k = s.Int(0, 1);
    const int op = s.Pick({4, 3, 4, 2, 3, 1, 1, 2});
    const Start xs = Snap(x), xbs = Snap(xb);
    const char* name = "";
    Ref& ref = m[k];
    switch (op) {
      case 0: {
        const double sigma = s.Chance(1, 3) ? 1.0 : s.LogUniform(1e-10, 1e2);
        const bool own = s.Chance(1, 6);
        c.Note("r%d InnerResidual sigma=%.17g%s", k, sigma,
               own ? " at its own centre" : "");
        r[k]->InnerResidual(x, own ? x : xb, sigma);
        ref = Evaluate(d[link[k]]->qp(), INNER, xs, own ? xs : xbs, sigma,
                       alpha[k]);
        name = "InnerResidual";
        seen |= 1;
        break;
      }
      case 1:
        c.Note("r%d NaturalResidual", k);
        r[k]->NaturalResidual(x);
        ref = Evaluate(d[link[k]]->qp(), NATURAL, xs, xbs, 0, alpha[k]);
        name = "NaturalResidual";
        seen |= 2;
        break;
      case 2:
        c.Note("r%d PenalizedNaturalResidual", k);
        r[k]->PenalizedNaturalResidual(x);
        ref = Evaluate(d[link[k]]->qp(), PENALIZED, xs, xbs, 0, alpha[k]);
        name = "PenalizedNaturalResidual";
        seen |= 4;
        break;
      case 3: {
        const double a = GenScalar(s);
        c.Note("r%d Fill(%.17g)", k, a);
        r[k]->Fill(a);
        ref.Size(q.nz, q.nl, q.nv);
        ref.z.setConstant(a);
        ref.l.setConstant(a);
        ref.v.setConstant(a);
        name = "Fill";
        break;
      }
      case 4:
        c.Note("r%d Negate", k);
        r[k]->Negate();
        ref.z = -ref.z;
        ref.l = -ref.l;
        ref.v = -ref.v;
        name = "Negate";
        break;
      case 5:
        alpha[k] = s.Chance(1, 3) ? 0.95 : 0.001 + 0.998 * s.Unit();
        c.Note("r%d SetAlpha(%.17g)", k, alpha[k]);
        r[k]->SetAlpha(alpha[k]);
        name = "SetAlpha";
        break;
      case 6:
        link[k] = s.Int(0, 1);
        c.Note("r%d LinkData(%d)", k, link[k]);
        r[k]->LinkData(d[link[k]]->data);
        name = "LinkData";
        break;
      case 7:
        c.Note("new point");
        move(s.Chance(2, 3) ? &x : &xb);
        name = "a change of the point";
        break;
    }
    c.Label(name);
    if (op != 7)
      VF_CHECK(Same(Snap(x), xs) && Same(Snap(xb), xbs),
               "%s modified the point", name);
    Compare(*r[0], m[0], name);
    Compare(*r[1], m[1], name);
    VF_CHECK(d0.Intact() && d1.Intact(), "%s modified the data", name);
    // What was stored is the reference from now on.
    m[k].z = r[k]->z().cast<long double>();
    m[k].l = r[k]->l().cast<long double>();
    m[k].v = r[k]->v().cast<long double>();
    m[k].ez.setZero();
    m[k].el.setZero();
    m[k].ev.setZero();
  }
  c.nontrivial = seen == 7 && (MaxAbs(x.z().cast<long double>()) > 0);
}
static void Exact(Src& s, Case& c) {
  Problem p;
  if (s.Chance(1, 2)) {
    OcpOpts o;
    o.allow_real = false;
    p = FromOcp(GenOcp(s, o));
  } else {
    GenOpts g;
    g.allow_real = false;
    p = FromQp(GenSolvable(s, g));
  }
  const Qp& q = p.qp;
  if (!q.exact) throw Discard();
  Bound d(p, s.Chance(1, 2));
  p.Describe(c);
  FullVariable x(q.nz, q.nl, q.nv);
  FullResidual r(q.nz, q.nl, q.nv);
  x.LinkData(d.data);
  r.LinkData(d.data);
  const double alpha = s.Chance(1, 2) ? 0.95 : 0.001 + 0.998 * s.Unit();
  r.SetAlpha(alpha);
  x.z() = q.z;
  x.l() = q.l;
  x.v() = q.v;
  const bool at = s.Chance(1, 3);
  if (!at) {
    const int k = s.Int(1, 2);
    for (int t = 0; t < k; t++) {
      const int i = s.Int(0, q.nz + q.nl + q.nv - 1);
      const double by = (1 + s.Int(0, 4)) * (s.Chance(1, 2) ? 1 : -1);
      if (i < q.nz) x.z()(i) += by;
      else if (i < q.nz + q.nl) x.l()(i - q.nz) += by;
      else x.v()(i - q.nz - q.nl) += by;
    }
  }
  x.InitializeConstraintMargin();
  NoteStart(c, Snap(x));
  // Exact integer evaluation of the KKT conditions.
  Kkt k = EvalKkt(q, x.z(), x.l(), x.v(), 0.5);
  bool sol = k.rz_norm == 0 && k.rl_norm == 0;
  bool active = false;
  for (int i = 0; i < q.nv; i++) {
    if (!(k.y(i) >= 0 && x.v(i) >= 0 && (k.y(i) == 0 || x.v(i) == 0)))
      sol = false;
    if (k.y(i) == 0) active = true;
    VF_CHECK((long double)x.y(i) == k.y(i), "margin %d is not exact", i);
  }
  if (at) VF_CHECK(sol, "harness: the constructed solution is none");
  c.Label(sol ? "solution" : "no solution");
  c.nontrivial = !sol || active;
  const double sigma = s.LogUniform(1e-10, 1e2);
  const char* names[] = {"InnerResidual at its own centre", "NaturalResidual",
                         "PenalizedNaturalResidual"};
  for (int w = 0; w < 3; w++) {
    if (w == 0) r.InnerResidual(x, x, sigma);
    if (w == 1) r.NaturalResidual(x);
    if (w == 2) r.PenalizedNaturalResidual(x);
    VF_CHECK((r.Norm() == 0) == sol, "%s has norm %.17g at a point that is %s",
             names[w], r.Norm(), sol ? "a solution" : "not a solution");
  }
}
namespace vf {
std::vector<Property> kProperties = {{"model", Model, 200000, 4000000},
                                     {"exact", Exact, 200000, 3000000}};
}
