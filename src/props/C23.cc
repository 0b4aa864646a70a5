// C23: components reject misuse with the documented exceptions.
// RUN: plain
// RUN: asan --scale 0.1
#include "comp.h"
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/riccati_linear_solver.h"
using namespace vf;
using fbstab::Data;
using fbstab::DenseCholeskySolver;
using fbstab::DenseData;
using fbstab::FullFeasibility;
using fbstab::FullResidual;
using fbstab::FullVariable;
using fbstab::MatrixSequence;
using fbstab::MpcData;
using fbstab::RiccatiLinearSolver;
namespace vf {
const char* kPropertyId = "C23";
const char* kRule =
    "Histories of 4-16 calls of one component, each correct or with up to "
    "three documented misuses (no linked data, wrong sizes in any dimension, "
    "null output, non-positive regularisation). A call must throw a "
    "runtime_error exactly when it is a misuse, must not modify its inputs, "
    "and the component must afterwards agree bit for bit with one that saw "
    "the correct calls only. Constructors get sizes around zero. Non-trivial: "
    "a correct call after a rejected one, or a constructor call.";
}
namespace {
enum class Got { OK, RUNTIME, OTHER };
const char* Name(Got g) {
  return g == Got::OK ? "accepted" : g == Got::RUNTIME ? "runtime_error"
                                                       : "another exception";
}
template <class F>
Got Call(F f) {
  try {
    f();
    return Got::OK;
  } catch (const Failure&) {
    throw;
  } catch (const std::runtime_error&) {
    return Got::RUNTIME;
  } catch (const std::exception&) {
    return Got::OTHER;
  }
}
void Expect(Case& c, const char* what, bool bad, Got g) {
  c.Note("%s: %s", what, Name(g));
  c.Label(std::string(what) + (bad ? " (misuse)" : ""));
  VF_CHECK(g == (bad ? Got::RUNTIME : Got::OK), "%s, %s: %s", what,
           bad ? "a misuse" : "a correct call", Name(g));
}
struct Sz {
  int nz, nl, nv;
  bool operator==(const Sz& o) const {
    return nz == o.nz && nl == o.nl && nv == o.nv;
  }
};
Sz SizeOf(const Qp& q) { return {q.nz, q.nl, q.nv}; }
// Another size: one or more dimensions differ.
Sz Deviate(Src& s, Sz a) {
  Sz b = a;
  for (int t = 0; t < 8 && b == a; t++) {
    switch (s.Pick({3, 3, 3, 1, 1, 1, 1})) {
      case 0: b.nz += s.Chance(1, 2) ? 1 : -1; break;
      case 1: b.nl += s.Chance(1, 2) ? 1 : -1; break;
      case 2: b.nv += s.Chance(1, 2) ? 1 : -1; break;
      case 3: std::swap(b.nz, b.nv); break;
      case 4: b.nz--; b.nl++; break;  // the same total
      case 5: b.nl++; b.nv--; break;
      default: b = {s.Int(1, 2 * a.nz), s.Int(0, 2 * a.nl), s.Int(1, 2 * a.nv)};
    }
    b.nz = std::max(b.nz, 1);
    b.nl = std::max(b.nl, 0);
    b.nv = std::max(b.nv, 1);
  }
  if (b == a) b.nz++;
  return b;
}
using VarP = std::unique_ptr<FullVariable>;
VarP MakeVar(Src& s, Sz n, const Data* d) {
  VarP v(new FullVariable(n.nz, n.nl, n.nv));
  for (Vec* p : {&v->z(), &v->l(), &v->v(), &v->y()})
    for (int i = 0; i < p->size(); i++) (*p)(i) = s.Signed(6) / 2.0;
  if (d) {
    v->LinkData(d);
    v->InitializeConstraintMargin();
  }
  return v;
}
double GoodSigma(Src& s) { return s.LogUniform(1e-3, 2.0); }
double BadSigma(Src& s) {
  switch (s.Int(0, 3)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return -GoodSigma(s);
    default: return -1e-300;
  }
}
bool SameRes(const FullResidual& a, const FullResidual& b) {
  const double x = a.Norm(), y = b.Norm();
  return SameBits(a.z(), b.z()) && SameBits(a.l(), b.l()) &&
         SameBits(a.v(), b.v()) && x == y && a.Merit() == b.Merit() &&
         a.z_norm() == b.z_norm() && a.l_norm() == b.l_norm() &&
         a.v_norm() == b.v_norm();
}
// ---- constructors
void Ctors(Src& s, Case& c) {
  const int a = s.Int(-3, 3), b = s.Int(-3, 3), d = s.Int(-3, 3),
            e = s.Int(-3, 3);
  c.Note("sizes %d %d %d %d", a, b, d, e);
  c.nontrivial = true;
  const bool bad3 = a <= 0 || b < 0 || d <= 0;
  switch (s.Int(0, 4)) {
    case 0:
      Expect(c, "FullVariable", bad3, Call([&] { FullVariable x(a, b, d); }));
      break;
    case 1:
      Expect(c, "FullResidual", bad3, Call([&] { FullResidual x(a, b, d); }));
      break;
    case 2:
      Expect(c, "FullFeasibility", bad3,
             Call([&] { FullFeasibility x(a, b, d); }));
      break;
    case 3:
      Expect(c, "DenseCholeskySolver", bad3,
             Call([&] { DenseCholeskySolver x(a, b, d); }));
      break;
    default:
      Expect(c, "RiccatiLinearSolver", a <= 0 || b <= 0 || d <= 0 || e <= 0,
             Call([&] { RiccatiLinearSolver x(a, b, d, e); }));
  }
}
Mat Ints(Src& s, int r, int c) {
  Mat m(r, c);
  for (int i = 0; i < m.size(); i++) m.data()[i] = s.Signed(3);
  return m;
}
int Near(Src& s, int n, int lo) {
  switch (s.Pick({4, 4, 1, 1})) {
    case 0: return n + 1;
    case 1: return std::max(lo, n - 1);
    case 2: return 2 * n;
    default: return std::max(lo, 1);
  }
}
void DenseCtor(Src& s, Case& c) {
  const int nz = s.Int(1, 4), nl = s.Int(0, 3), nv = s.Int(1, 4);
  int d[9] = {nz, nz, nz, nl, nz, nl, nv, nz, nv};
  const int k = s.Pick({2, 5, 2});
  for (int t = 0; t < k; t++) {
    const int i = s.Int(0, 8);
    d[i] = Near(s, d[i], 0);
  }
  const bool fits = d[0] == d[1] && d[2] == d[0] && d[4] == d[0] &&
                    d[3] == d[5] && d[7] == d[0] && d[6] == d[8];
  Mat H = Ints(s, d[0], d[1]), G = Ints(s, d[3], d[4]), A = Ints(s, d[6], d[7]);
  Vec f = Ints(s, d[2], 1), h = Ints(s, d[5], 1), b = Ints(s, d[8], 1);
  const int null = s.Chance(1, 3) ? s.Int(1, 63) : 0;
  c.Note("H %dx%d f %d G %dx%d h %d A %dx%d b %d, null mask %d", d[0], d[1],
         d[2], d[3], d[4], d[5], d[6], d[7], d[8], null);
  c.nontrivial = true;
  auto test = [&](const auto& mk) {
    Expect(c, "DenseData", !fits || null, Call(mk));
  };
  if (s.Chance(1, 2)) {
    test([&] {
      DenseData x(null & 1 ? nullptr : &H, null & 2 ? nullptr : &f,
                  null & 4 ? nullptr : &G, null & 8 ? nullptr : &h,
                  null & 16 ? nullptr : &A, null & 32 ? nullptr : &b);
      VF_CHECK(x.nz() == d[0] && x.nl() == d[3] && x.nv() == d[6], "sizes");
    });
  } else {
    using MM = Eigen::Map<Mat>;
    using MV = Eigen::Map<Vec>;
    MM mH(H.data(), d[0], d[1]), mG(G.data(), d[3], d[4]),
        mA(A.data(), d[6], d[7]);
    MV mf(f.data(), d[2]), mh(h.data(), d[5]), mb(b.data(), d[8]);
    test([&] {
      DenseData x(null & 1 ? nullptr : &mH, null & 2 ? nullptr : &mf,
                  null & 4 ? nullptr : &mG, null & 8 ? nullptr : &mh,
                  null & 16 ? nullptr : &mA, null & 32 ? nullptr : &mb);
      VF_CHECK(x.nz() == d[0] && x.nl() == d[3] && x.nv() == d[6], "sizes");
    });
  }
}
void MpcCtor(Src& s, Case& c) {
  const int N = s.Int(1, 3), nx = s.Int(1, 3), nu = s.Int(1, 3),
            nc = s.Int(1, 3);
  // length, rows, cols of Q R S q r A B c E L d, then x0.
  int d[11][3] = {{N + 1, nx, nx}, {N + 1, nu, nu}, {N + 1, nu, nx},
                  {N + 1, nx, 1},  {N + 1, nu, 1},  {N, nx, nx},
                  {N, nx, nu},     {N, nx, 1},      {N + 1, nc, nx},
                  {N + 1, nc, nu}, {N + 1, nc, 1}};
  int x0 = nx;
  const int k = s.Pick({2, 6, 2});
  for (int t = 0; t < k; t++) {
    const int i = s.Int(0, 11);
    if (i == 11) {
      x0 = Near(s, x0, 1);
    } else {
      const int j = s.Int(0, 3);
      if (j == 3)
        std::swap(d[i][1], d[i][2]);
      else
        d[i][j] = Near(s, d[i][j], 1);
    }
  }
  // Sizes as implied by Q, R and E.
  const int n = d[0][0] - 1, x = d[0][1], u = d[1][1], e = d[8][1];
  const int want[11][3] = {{n + 1, x, x}, {n + 1, u, u}, {n + 1, u, x},
                           {n + 1, x, 1}, {n + 1, u, 1}, {n, x, x},
                           {n, x, u},     {n, x, 1},     {n + 1, e, x},
                           {n + 1, e, u}, {n + 1, e, 1}};
  bool fits = x0 == x && n >= 1;
  for (int i = 0; i < 11; i++)
    for (int j = 0; j < 3; j++) fits = fits && d[i][j] == want[i][j];
  std::vector<MatrixSequence> q;
  for (int i = 0; i < 11; i++) {
    q.emplace_back(d[i][0], d[i][1], d[i][2]);
    for (int t = 0; t < d[i][0]; t++) q[i](t) = Ints(s, d[i][1], d[i][2]);
    c.Note("%c: %d x %d x %d", "QRSqrABcELd"[i], d[i][0], d[i][1], d[i][2]);
  }
  Vec v = Ints(s, x0, 1);
  c.Note("x0: %d", x0);
  c.nontrivial = true;
  Got g;
  if (s.Chance(1, 2)) {
    g = Call([&] {
      MpcData m(&q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], &q[8],
                &q[9], &q[10], &v);
    });
  } else {
    std::vector<fbstab::MapMatrixSequence> m(q.begin(), q.end());
    Eigen::Map<Vec> mv(v.data(), v.size());
    g = Call([&] {
      MpcData w(&m[0], &m[1], &m[2], &m[3], &m[4], &m[5], &m[6], &m[7], &m[8],
                &m[9], &m[10], &mv);
    });
  }
  Expect(c, "MpcData", !fits, g);
}
// ---- histories
Problem Prob(Src& s) {
  if (s.Chance(1, 2)) {
    OcpOpts o;
    o.max_N = 3;
    o.max_nx = 3;
    o.max_nu = 2;
    o.max_nc = 3;
    return FromOcp(GenAnyOcp(s, o));
  }
  GenOpts g;
  g.max_nz = 5;
  g.max_nl = 3;
  g.max_nv = 5;
  return FromQp(GenAnyQp(s, g));
}
void Variable(Src& s, Case& c) {
  Problem p = Prob(s);
  Bound b(p);
  const Sz n = SizeOf(p.qp);
  FullVariable x(n.nz, n.nl, n.nv), t(n.nz, n.nl, n.nv);
  bool linked = false, rejected = false;
  c.Note("sizes %d %d %d", n.nz, n.nl, n.nv);
  const int len = s.Int(4, 16);
  for (int k = 0; k < len; k++) {
    const int op = s.Pick({3, 3, 3, 2, 1, 1, 1});
    const Sz m = s.Chance(1, 2) ? n : Deviate(s, n);
    bool bad = false;
    const Start keep = Snap(x);
    switch (op) {
      case 0: {
        const double a = s.Signed(6) / 2.0;
        bad = !linked;
        Expect(c, "Variable::Fill", bad, Call([&] { x.Fill(a); }));
        // What a rejected fill leaves behind is not specified.
        if (bad) x.Copy(t);
        else t.Fill(a);
        break;
      }
      case 1:
        bad = !linked;
        Expect(c, "Variable::InitializeConstraintMargin", bad,
               Call([&] { x.InitializeConstraintMargin(); }));
        if (!bad) t.InitializeConstraintMargin();
        break;
      case 2: {
        VarP o = MakeVar(s, n, s.Chance(1, 2) ? b.data : nullptr);
        const Start ok = Snap(*o);
        const double a = s.Signed(6) / 2.0;
        bad = !linked;
        Expect(c, "Variable::axpy", bad, Call([&] { x.axpy(a, *o); }));
        VF_CHECK(Same(Snap(*o), ok), "the operand was modified");
        if (!bad) t.axpy(a, *o);
        break;
      }
      case 3:
        linked = s.Chance(2, 3);
        x.LinkData(linked ? b.data : nullptr);
        t.LinkData(linked ? b.data : nullptr);
        c.Note(linked ? "link" : "unlink");
        break;
      case 4:
        Expect(c, "Variable::ProjectDuals", false,
               Call([&] { x.ProjectDuals(); }));
        t.ProjectDuals();
        break;
      case 5: {
        VarP o = MakeVar(s, n, nullptr);
        const bool l = s.Chance(1, 2);
        if (l) o->LinkData(b.data);
        Expect(c, "Variable::Copy", false, Call([&] { x.Copy(*o); }));
        t.Copy(*o);
        linked = l;
        break;
      }
      default: {
        FullVariable o(m.nz, m.nl, m.nv);
        VF_CHECK(x.SameSize(o) == (m == n) && o.SameSize(x) == (m == n),
                 "SameSize of (%d,%d,%d) and (%d,%d,%d)", n.nz, n.nl, n.nv,
                 m.nz, m.nl, m.nv);
        FullResidual r(m.nz, m.nl, m.nv);
        VF_CHECK(r.SameSize(x) == (m == n),
                 "SameSize of residual (%d,%d,%d) and (%d,%d,%d)", m.nz, m.nl,
                 m.nv, n.nz, n.nl, n.nv);
        c.Label("SameSize");
      }
    }
    if (bad && op != 0)
      VF_CHECK(Same(Snap(x), keep), "a rejected call changed the variable");
    VF_CHECK(Same(Snap(x), Snap(t)), "the variable differs from its twin");
    rejected |= bad;
    if (!bad && rejected) c.nontrivial = true;
  }
}
void Residual(Src& s, Case& c) {
  Problem p = Prob(s);
  Bound b(p);
  const Sz n = SizeOf(p.qp);
  FullResidual r(n.nz, n.nl, n.nv), t(n.nz, n.nl, n.nv);
  bool linked = false, rejected = false;
  c.Note("sizes %d %d %d", n.nz, n.nl, n.nv);
  const int len = s.Int(4, 16);
  for (int k = 0; k < len; k++) {
    bool bad = false;
    switch (s.Pick({6, 2, 2, 3, 1, 1, 1})) {
      case 0: {
        Sz a = n, d = n;
        double sigma = GoodSigma(s);
        bool wrong = false;
        if (s.Chance(1, 4)) wrong = true, a = Deviate(s, n);
        if (s.Chance(1, 4)) wrong = true, d = s.Chance(1, 3) ? a : Deviate(s, n);
        wrong = !(a == n) || !(d == n);
        if (s.Chance(1, 5)) wrong = true, sigma = BadSigma(s);
        VarP x = MakeVar(s, a, nullptr), y = MakeVar(s, d, nullptr);
        const Start kx = Snap(*x), ky = Snap(*y);
        bad = wrong || !linked;
        c.Note("x (%d,%d,%d), centre (%d,%d,%d), sigma %g", a.nz, a.nl, a.nv,
               d.nz, d.nl, d.nv, sigma);
        Expect(c, "Residual::InnerResidual", bad,
               Call([&] { r.InnerResidual(*x, *y, sigma); }));
        VF_CHECK(Same(Snap(*x), kx) && Same(Snap(*y), ky), "inputs modified");
        if (!bad) t.InnerResidual(*x, *y, sigma);
        break;
      }
      case 1:
      case 2: {
        VarP x = MakeVar(s, n, nullptr);
        const Start kx = Snap(*x);
        bad = !linked;
        const bool pen = s.Chance(1, 2);
        Expect(c, pen ? "Residual::PenalizedNaturalResidual"
                      : "Residual::NaturalResidual",
               bad, Call([&] {
                 if (pen) r.PenalizedNaturalResidual(*x);
                 else r.NaturalResidual(*x);
               }));
        VF_CHECK(Same(Snap(*x), kx), "inputs modified");
        if (!bad && pen) t.PenalizedNaturalResidual(*x);
        if (!bad && !pen) t.NaturalResidual(*x);
        break;
      }
      case 3:
        linked = s.Chance(3, 4);
        r.LinkData(linked ? b.data : nullptr);
        t.LinkData(linked ? b.data : nullptr);
        c.Note(linked ? "link" : "unlink");
        break;
      case 4: {
        const double a = s.Signed(6) / 2.0;
        Expect(c, "Residual::Fill", false, Call([&] { r.Fill(a); }));
        t.Fill(a);
        break;
      }
      case 5:
        r.Negate();
        t.Negate();
        break;
      default: {
        const double a = 0.001 + 0.998 * s.Unit();
        r.SetAlpha(a);
        t.SetAlpha(a);
      }
    }
    VF_CHECK(SameRes(r, t), "the residual differs from its twin");
    rejected |= bad;
    if (!bad && rejected) c.nontrivial = true;
  }
}
void Feasibility(Src& s, Case& c) {
  Problem p = Prob(s);
  Bound b(p);
  const Sz n = SizeOf(p.qp);
  FullFeasibility f(n.nz, n.nl, n.nv), t(n.nz, n.nl, n.nv);
  bool linked = false, rejected = false;
  c.Note("sizes %d %d %d", n.nz, n.nl, n.nv);
  const int len = s.Int(4, 16);
  for (int k = 0; k < len; k++) {
    if (s.Chance(1, 4)) {
      linked = s.Chance(3, 4);
      f.LinkData(linked ? b.data : nullptr);
      t.LinkData(linked ? b.data : nullptr);
      c.Note(linked ? "link" : "unlink");
      continue;
    }
    const Sz a = s.Chance(2, 3) ? n : Deviate(s, n);
    VarP x = MakeVar(s, a, nullptr);
    const Start kx = Snap(*x);
    const double tol = s.LogUniform(1e-10, 1.0);
    const bool bad = !linked || !(a == n);
    c.Note("x (%d,%d,%d), linked %d", a.nz, a.nl, a.nv, linked);
    FullFeasibility::FeasibilityStatus v{}, w{};
    Expect(c, "Feasibility::CheckFeasibility", bad,
           Call([&] { v = f.CheckFeasibility(*x, tol); }));
    VF_CHECK(Same(Snap(*x), kx), "inputs modified");
    if (!bad) {
      w = t.CheckFeasibility(*x, tol);
      VF_CHECK(v == w, "the verdict differs from that of the twin");
      if (rejected) c.nontrivial = true;
    }
    rejected |= bad;
  }
}
template <class Lin, class D>
void LinearHistory(Src& s, Case& c, const Sz n, const Bound& b, Lin* a, Lin* t) {
  const D* data = static_cast<const D*>(b.data);
  bool linked = false, rejected = false, factored = false;
  c.Note("sizes %d %d %d", n.nz, n.nl, n.nv);
  const int len = s.Int(4, 16);
  for (int k = 0; k < len; k++) {
    bool bad = false;
    switch (s.Pick({3, 6, 6, 1})) {
      case 0:
        linked = s.Chance(3, 4);
        a->LinkData(linked ? data : nullptr);
        t->LinkData(linked ? data : nullptr);
        c.Note(linked ? "link" : "unlink");
        break;
      case 1: {
        Sz m = n, d = n;
        double sigma = GoodSigma(s);
        if (s.Chance(1, 4)) m = Deviate(s, n);
        if (s.Chance(1, 4)) d = s.Chance(1, 3) ? m : Deviate(s, n);
        bad = !linked || !(m == n) || !(d == n);
        if (s.Chance(1, 6)) bad = true, sigma = BadSigma(s);
        VarP x = MakeVar(s, m, nullptr), y = MakeVar(s, d, nullptr);
        const Start kx = Snap(*x), ky = Snap(*y);
        c.Note("x (%d,%d,%d), xbar (%d,%d,%d), sigma %g, linked %d", m.nz, m.nl,
               m.nv, d.nz, d.nl, d.nv, sigma, linked);
        bool r1 = false, r2 = false;
        Expect(c, "LinearSolver::Initialize", bad,
               Call([&] { r1 = a->Initialize(*x, *y, sigma); }));
        VF_CHECK(Same(Snap(*x), kx) && Same(Snap(*y), ky), "inputs modified");
        if (!bad) {
          r2 = t->Initialize(*x, *y, sigma);
          VF_CHECK(r1 == r2, "factorisation %d, that of the twin %d", r1, r2);
          factored = r1;
        }
        break;
      }
      case 2: {
        if (!factored) break;
        Sz m = n, d = n;
        if (s.Chance(1, 4)) m = Deviate(s, n);
        if (s.Chance(1, 4)) d = s.Chance(1, 2) ? m : Deviate(s, n);
        const bool null = s.Chance(1, 6);
        bad = null || !linked || !(m == n) || !(d == n);
        FullResidual r(m.nz, m.nl, m.nv);
        for (Vec* q : {&r.z(), &r.l(), &r.v()})
          for (int i = 0; i < q->size(); i++) (*q)(i) = s.Signed(8) / 4.0;
        FullResidual kr(m.nz, m.nl, m.nv);
        kr.z() = r.z();
        kr.l() = r.l();
        kr.v() = r.v();
        FullVariable o(d.nz, d.nl, d.nv), w(d.nz, d.nl, d.nv);
        c.Note("r (%d,%d,%d), dx (%d,%d,%d)%s, linked %d", m.nz, m.nl, m.nv,
               d.nz, d.nl, d.nv, null ? " null" : "", linked);
        bool r1 = false;
        Expect(c, "LinearSolver::Solve", bad,
               Call([&] { r1 = a->Solve(r, null ? nullptr : &o); }));
        VF_CHECK(SameBits(r.z(), kr.z()) && SameBits(r.l(), kr.l()) &&
                     SameBits(r.v(), kr.v()),
                 "inputs modified");
        if (!bad) {
          const bool r2 = t->Solve(r, &w);
          VF_CHECK(r1 == r2 && Same(Snap(o), Snap(w)),
                   "the solution differs from that of the twin");
        }
        break;
      }
      default: {
        const double al = 0.001 + 0.998 * s.Unit();
        a->SetAlpha(al);
        t->SetAlpha(al);
      }
    }
    rejected |= bad;
    if (!bad && rejected && factored) c.nontrivial = true;
  }
}
void Linear(Src& s, Case& c) {
  Problem p = Prob(s);
  Bound b(p, s.Chance(1, 2));
  const Sz n = SizeOf(p.qp);
  c.Label(p.mpc ? "riccati" : "cholesky");
  if (p.mpc) {
    RiccatiLinearSolver x(p.ocp.N, p.ocp.nx, p.ocp.nu, p.ocp.nc),
        t(p.ocp.N, p.ocp.nx, p.ocp.nu, p.ocp.nc);
    LinearHistory<RiccatiLinearSolver, MpcData>(s, c, n, b, &x, &t);
  } else {
    DenseCholeskySolver x(n.nz, n.nl, n.nv), t(n.nz, n.nl, n.nv);
    LinearHistory<DenseCholeskySolver, DenseData>(s, c, n, b, &x, &t);
  }
}
// Operators of the optimal control data.
void Operators(Src& s, Case& c) {
  OcpOpts o;
  o.max_N = 3;
  o.max_nx = 3;
  o.max_nu = 2;
  o.max_nc = 3;
  Problem p = FromOcp(GenAnyOcp(s, o));
  Bound b(p, s.Chance(1, 2));
  const MpcData& d = *b.mpc;
  const int sz[3] = {p.qp.nz, p.qp.nl, p.qp.nv};
  c.Note("sizes %d %d %d", sz[0], sz[1], sz[2]);
  bool rejected = false;
  const int len = s.Int(4, 16);
  for (int k = 0; k < len; k++) {
    static const char* names[] = {"gemvH", "gemvA",  "gemvG", "gemvAT",
                                  "gemvGT", "axpyf", "axpyh", "axpyb"};
    static const int in[] = {0, 0, 0, 2, 1, 0, 0, 0};
    static const int out[] = {0, 2, 1, 0, 0, 0, 1, 2};
    const int op = s.Int(0, 7);
    int nx = sz[in[op]], ny = sz[out[op]];
    auto dev = [&](int n) {
      switch (s.Pick({3, 3, 1, 1})) {
        case 0: return n + 1;
        case 1: return n - 1;
        case 2: return sz[s.Int(0, 2)];
        default: return s.Int(0, 2 * n);
      }
    };
    const bool takes = op < 5;
    if (takes && s.Chance(1, 3)) nx = dev(nx);
    if (s.Chance(1, 3)) ny = dev(ny);
    const bool null = s.Chance(1, 8);
    const bool bad = null || ny != sz[out[op]] || (takes && nx != sz[in[op]]);
    auto scal = [&] {
      const int q = s.Int(0, 3);
      return q == 0 ? 0.0 : q == 1 ? 1.0 : q == 2 ? -1.0 : s.Real(3);
    };
    const double al = scal(), be = scal();
    Vec x = Ints(s, nx, 1), y = Ints(s, ny, 1);
    const Vec kx = x;
    Vec* py = null ? nullptr : &y;
    c.Note("%s: x %d, y %d%s, a %g b %g", names[op], nx, ny, null ? " null" : "",
           al, be);
    const Vec y0 = y;
    Expect(c, names[op], bad, Call([&] {
             switch (op) {
               case 0: d.gemvH(x, al, be, py); break;
               case 1: d.gemvA(x, al, be, py); break;
               case 2: d.gemvG(x, al, be, py); break;
               case 3: d.gemvAT(x, al, be, py); break;
               case 4: d.gemvGT(x, al, be, py); break;
               case 5: d.axpyf(al, py); break;
               case 6: d.axpyh(al, py); break;
               default: d.axpyb(al, py);
             }
           }));
    VF_CHECK(SameBits(x, kx), "%s modified its input", names[op]);
    VF_CHECK(b.Intact(), "%s modified the data", names[op]);
    if (!bad) {
      VF_CHECK(y.size() == y0.size(), "%s resized its output", names[op]);
      const Qp& q = b.qp();
      Vec w;
      switch (op) {
        case 0: w = al * (q.H * x) + be * y0; break;
        case 1: w = al * (q.A * x) + be * y0; break;
        case 2: w = al * (q.G * x) + be * y0; break;
        case 3: w = al * (q.A.transpose() * x) + be * y0; break;
        case 4: w = al * (q.G.transpose() * x) + be * y0; break;
        case 5: w = al * q.f + y0; break;
        case 6: w = al * q.h + y0; break;
        default: w = al * q.b + y0;
      }
      const double mag = 1 + q.H.cwiseAbs().sum() + q.A.cwiseAbs().sum() +
                         q.G.cwiseAbs().sum() + InfNorm(q.f) + InfNorm(q.h) +
                         InfNorm(q.b);
      VF_CHECK(InfNorm(y - w) <= 1e-11 * mag, "%s gave a wrong result",
               names[op]);
      if (rejected) c.nontrivial = true;
    }
    rejected |= bad;
  }
}
}  // namespace
namespace vf {
std::vector<Property> kProperties = {
    {"constructors", Ctors, 20000, 200000},
    {"dense_data", DenseCtor, 40000, 400000},
    {"ocp_data", MpcCtor, 60000, 600000},
    {"variable", Variable, 60000, 600000},
    {"residual", Residual, 80000, 800000},
    {"feasibility", Feasibility, 60000, 600000},
    {"linear_solver", Linear, 80000, 800000},
    {"operators", Operators, 60000, 600000}};
}
