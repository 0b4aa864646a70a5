// C20: equivalent problems have equivalent answers.
#include <functional>

#include "path.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C20";
const char* kRule =
    "A problem is rewritten by one to four random transformations that "
    "preserve it (or, for the objective, by adding or removing constraints); "
    "both versions are solved and the answers compared after mapping back. "
    "Symmetries of the method are compared iterate by iterate. Non-trivial: "
    "both runs take Newton steps.";
}
namespace {
struct Map {
  Qp q;
  std::function<Start(const Start&)> fwd, back;
};
void Then(Map* m, std::function<Start(Start)> f, std::function<Start(Start)> b) {
  auto f0 = m->fwd, b0 = m->back;
  m->fwd = [f0, f](const Start& x) { return f(f0(x)); };
  m->back = [b0, b](const Start& x) { return b0(b(x)); };
}
std::vector<int> Perm(Src& s, int n) {
  std::vector<int> p(n);
  for (int i = 0; i < n; i++) p[i] = i;
  for (int i = 0; i + 1 < n; i++) std::swap(p[i], p[i + s.Below(n - i)]);
  return p;
}
Vec Take(const Vec& v, const std::vector<int>& p) {
  Vec r(v.size());
  for (int i = 0; i < v.size(); i++) r(i) = v(p[i]);
  return r;
}
Vec Untake(const Vec& v, const std::vector<int>& p) {
  Vec r(v.size());
  for (int i = 0; i < v.size(); i++) r(p[i]) = v(i);
  return r;
}
Vec Append(const Vec& v, double x) {
  Vec r(v.size() + 1);
  r << v, x;
  return r;
}
void AddRow(Mat* M, Vec* rhs, const Vec& row, double r) {
  M->conservativeResize(M->rows() + 1, row.size());
  M->row(M->rows() - 1) = row.transpose();
  *rhs = Append(*rhs, r);
}
void DropRow(Mat* M, Vec* rhs, int k) {
  const int n = int(M->rows());
  Mat a(n - 1, M->cols());
  Vec b(n - 1);
  for (int i = 0, j = 0; i < n; i++)
    if (i != k) {
      a.row(j) = M->row(i);
      b(j++) = (*rhs)(i);
    }
  *M = a;
  *rhs = b;
}
Vec Head(const Vec& v) { return v.head(v.size() - 1); }
void Fix(Qp* q) {
  q->nz = int(q->H.rows());
  q->nl = int(q->G.rows());
  q->nv = int(q->A.rows());
}
// ---- symmetries of the method
void Symmetry(Src& s, Map* m, Case& c, bool shift = true) {
  Qp& q = m->q;
  switch (s.Pick({3, 3, q.nl ? 2 : 0, q.nl ? 3 : 0, shift ? 3 : 0})) {
    case 0: {
      auto p = Perm(s, q.nz);
      Qp r = q;
      for (int i = 0; i < q.nz; i++) {
        for (int j = 0; j < q.nz; j++) r.H(i, j) = q.H(p[i], p[j]);
        r.G.col(i) = q.G.col(p[i]);
        r.A.col(i) = q.A.col(p[i]);
      }
      r.f = Take(q.f, p);
      q = r;
      Then(m, [p](Start x) { x.z = Take(x.z, p); return x; },
           [p](Start x) { x.z = Untake(x.z, p); return x; });
      c.Label("permute variables");
      break;
    }
    case 1: {
      auto p = Perm(s, q.nv);
      Qp r = q;
      for (int i = 0; i < q.nv; i++) r.A.row(i) = q.A.row(p[i]);
      r.b = Take(q.b, p);
      q = r;
      Then(m,
           [p](Start x) {
             x.v = Take(x.v, p);
             x.y = Take(x.y, p);
             return x;
           },
           [p](Start x) {
             x.v = Untake(x.v, p);
             x.y = Untake(x.y, p);
             return x;
           });
      c.Label("permute inequalities");
      break;
    }
    case 2: {
      auto p = Perm(s, q.nl);
      Qp r = q;
      for (int i = 0; i < q.nl; i++) r.G.row(i) = q.G.row(p[i]);
      r.h = Take(q.h, p);
      q = r;
      Then(m, [p](Start x) { x.l = Take(x.l, p); return x; },
           [p](Start x) { x.l = Untake(x.l, p); return x; });
      c.Label("permute equalities");
      break;
    }
    case 3: {
      const int k = s.Int(0, q.nl - 1);
      q.G.row(k) *= -1;
      q.h(k) *= -1;
      auto f = [k](Start x) { x.l(k) *= -1; return x; };
      Then(m, f, f);
      c.Label("negate an equality");
      break;
    }
    default: {
      Vec d(q.nz);
      for (int i = 0; i < q.nz; i++) d(i) = s.Signed(4);
      // z' = z + d
      q.f -= q.H * d;
      if (q.nl) q.h += q.G * d;
      q.b += q.A * d;
      Then(m, [d](Start x) { x.z += d; return x; },
           [d](Start x) { x.z -= d; return x; });
      c.Label("shift");
    }
  }
}
// ---- equivalences
// zstar: a feasible (optimal) point of the current version, empty if none.
void Equivalence(Src& s, Map* m, Vec* zstar, Case& c) {
  Qp& q = m->q;
  const bool pt = zstar->size() > 0;
  switch (s.Pick({4, 3, q.nl ? 2 : 0, 3, 3, q.nl ? 3 : 0, 2,
                  q.nl > 1 ? 2 : 0, q.nl ? 2 : 0})) {
    case 0: {
      Start x = m->fwd ? Start() : Start();
      (void)x;
      Map t{q, [](const Start& a) { return a; }, [](const Start& a) { return a; }};
      Symmetry(s, &t, c);
      q = t.q;
      if (pt) {
        Start a;
        a.z = *zstar;
        a.l = Vec::Zero(q.nl);
        a.v = a.y = Vec::Zero(q.nv);
        *zstar = t.fwd(a).z;
      }
      Then(m, t.fwd, t.back);
      break;
    }
    case 1: {  // duplicate an inequality
      const int k = s.Int(0, q.nv - 1);
      AddRow(&q.A, &q.b, q.A.row(k).transpose(), q.b(k));
      Then(m,
           [](Start x) {
             x.v = Append(x.v, 0);
             x.y = Append(x.y, 0);
             return x;
           },
           [k](Start x) {
             x.v(k) += x.v(x.v.size() - 1);
             x.v = Head(x.v);
             x.y = Head(x.y);
             return x;
           });
      c.Label("duplicate an inequality");
      break;
    }
    case 2: {  // duplicate an equality
      const int k = s.Int(0, q.nl - 1);
      const double f = s.Chance(1, 2) ? 1 : -2;
      AddRow(&q.G, &q.h, f * q.G.row(k).transpose(), f * q.h(k));
      Then(m, [](Start x) { x.l = Append(x.l, 0); return x; },
           [k, f](Start x) {
             x.l(k) += f * x.l(x.l.size() - 1);
             x.l = Head(x.l);
             return x;
           });
      c.Label("duplicate an equality");
      break;
    }
    case 3: {  // slack constraint
      Vec a = GenVec(s, q.nz, true);
      if (!pt || s.Chance(1, 5)) a.setZero();
      const double r = (pt ? a.dot(*zstar) : 0.0) + s.Int(1, 50);
      AddRow(&q.A, &q.b, a, r);
      Then(m,
           [](Start x) {
             x.v = Append(x.v, 0);
             x.y = Append(x.y, 0);
             return x;
           },
           [](Start x) {
             x.v = Head(x.v);
             x.y = Head(x.y);
             return x;
           });
      c.Label("add a slack constraint");
      break;
    }
    case 4: {  // z = D z'
      Vec d(q.nz);
      for (int i = 0; i < q.nz; i++) d(i) = std::ldexp(1.0, s.Signed(3));
      q.H = d.asDiagonal() * q.H * d.asDiagonal();
      q.G = q.G * d.asDiagonal();
      q.A = q.A * d.asDiagonal();
      q.f = d.cwiseProduct(q.f);
      if (pt) *zstar = zstar->cwiseQuotient(d);
      Then(m, [d](Start x) { x.z = x.z.cwiseQuotient(d); return x; },
           [d](Start x) { x.z = x.z.cwiseProduct(d); return x; });
      c.Label("scale variables");
      break;
    }
    case 5: {  // split an equality
      const int k = s.Int(0, q.nl - 1);
      Vec g = q.G.row(k).transpose();
      const double h = q.h(k);
      AddRow(&q.A, &q.b, g, h);
      AddRow(&q.A, &q.b, -g, -h);
      DropRow(&q.G, &q.h, k);
      Then(m,
           [k](Start x) {
             const double l = x.l(k);
             Vec n(x.l.size() - 1);
             n << x.l.head(k), x.l.tail(x.l.size() - 1 - k);
             x.l = n;
             x.v = Append(Append(x.v, std::max(l, 0.0)), std::max(-l, 0.0));
             x.y = Append(Append(x.y, 0), 0);
             return x;
           },
           [k](Start x) {
             const int nv = int(x.v.size());
             const double l = x.v(nv - 2) - x.v(nv - 1);
             Vec n(x.l.size() + 1);
             n << x.l.head(k), l, x.l.tail(x.l.size() - k);
             x.l = n;
             x.v = Vec(x.v.head(nv - 2));
             x.y = Vec(x.y.head(nv - 2));
             return x;
           });
      c.Label("split an equality");
      break;
    }
    case 6: {  // scale rows
      Vec d(q.nv), e(q.nl);
      for (int i = 0; i < q.nv; i++) d(i) = std::ldexp(1.0, s.Signed(2));
      for (int i = 0; i < q.nl; i++) e(i) = std::ldexp(1.0, s.Signed(2));
      q.A = d.asDiagonal() * q.A;
      q.b = d.cwiseProduct(q.b);
      if (q.nl) {
        q.G = e.asDiagonal() * q.G;
        q.h = e.cwiseProduct(q.h);
      }
      Then(m,
           [d, e](Start x) {
             x.v = x.v.cwiseQuotient(d);
             x.y = x.y.cwiseProduct(d);
             x.l = x.l.cwiseQuotient(e);
             return x;
           },
           [d, e](Start x) {
             x.v = x.v.cwiseProduct(d);
             x.y = x.y.cwiseQuotient(d);
             x.l = x.l.cwiseProduct(e);
             return x;
           });
      c.Label("scale constraints");
      break;
    }
    case 7: {  // add one equality to another
      int i = s.Int(0, q.nl - 1), j = s.Int(0, q.nl - 2);
      if (j >= i) j++;
      q.G.row(i) += q.G.row(j);
      q.h(i) += q.h(j);
      Then(m, [i, j](Start x) { x.l(j) -= x.l(i); return x; },
           [i, j](Start x) { x.l(j) += x.l(i); return x; });
      c.Label("combine equalities");
      break;
    }
    default: {  // add a multiple of an equality to an inequality
      const int i = s.Int(0, q.nv - 1), j = s.Int(0, q.nl - 1);
      const double f = s.Signed(2);
      q.A.row(i) += f * q.G.row(j);
      q.b(i) += f * q.h(j);
      Then(m, [i, j, f](Start x) { x.l(j) -= f * x.v(i); return x; },
           [i, j, f](Start x) { x.l(j) += f * x.v(i); return x; });
      c.Label("combine with an equality");
    }
  }
  Fix(&q);
}
Out Run(const Qp& q, const AlgorithmParameters& op, const Start& x) {
  auto sol = MakeDense(q.nz, q.nl, q.nv);
  sol->SetProblem(q);
  sol->Update(op);
  return sol->Solve(x);
}
Map Identity(const Qp& q) {
  auto id = [](const Start& x) { return x; };
  return Map{q, id, id};
}
// ---- iterate by iterate
void Iterates(Src& s, Case& c) {
  Mixed m = GenMixed(s, {5, 2, 1, 1}, 0, s.Chance(2, 3), false);
  const Qp& q = m.p.qp;
  AlgorithmParameters op = BudgetOptions(s, m.p);
  // A shift changes the norm of the data, the other symmetries do not.
  const bool shift = s.Chance(3, 5);
  op.rel_tol = shift ? 0 : s.LogUniform(1e-6, 1e-1);
  Start x = RandomStart(s, q);
  Map t = Identity(q);
  const int n = s.Int(1, 4);
  m.p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  for (int i = 0; i < n; i++) Symmetry(s, &t, c, shift);
  if (c.verbose) t.q.Describe(c, "transformed");
  // An infeasibility verdict returns a direction, which does not shift; compare
  // such runs with checking disabled.
  Out a = Run(q, op, x);
  if (!a.threw && Infeasible(a.eflag)) {
    c.Label("verdict run");
    Out b = Run(t.q, op, t.fwd(x));
    Sens se = Sensitivity(s.Below(1u << 30), q, x, op, a,
                          SamePath(a, b) ? 3 : 60);
    if (!se.stable) throw Discard();
    if (!SamePath(a, b)) {
      // Shifting changes the rounding errors of the certificate conditions.
      if (!Sensitivity(s.Below(1u << 30), t.q, t.fwd(x), op, b, 60).stable)
        throw Discard();
      for (double f : {0.9, 0.99, 1.01, 1.1}) {
        AlgorithmParameters o2 = op;
        o2.infeas_tol *= f;
        if (!SamePath(Run(q, o2, x), a) || !SamePath(Run(t.q, o2, t.fwd(x)), b))
          throw Discard();
      }
    }
    VF_CHECK(SamePath(a, b), "original: %s\ntransformed: %s", OutStr(a).c_str(),
             OutStr(b).c_str());
    op.check_feasibility = false;
    a = Run(q, op, x);
  }
  Out b = Run(t.q, op, t.fwd(x));
  NoteOut(c, a);
  NoteOut(c, b);
  c.nontrivial = a.newton > 0;
  c.Label(a.threw ? "threw" : FlagName(a.eflag));
  const uint64_t ps = s.Below(1u << 30);
  Sens se = Sensitivity(ps, q, x, op, a);
  Sens st = se.stable ? Sensitivity(ps, t.q, t.fwd(x), op, b) : se;
  if (!se.stable || !st.stable) {
    c.Label("path sensitive to rounding");
    throw Discard();
  }
  // A disagreement counts only if many more perturbations do not explain it.
  auto explained = [&](double diff) {
    Sens u = Sensitivity(ps, q, x, op, a, 60),
         w = Sensitivity(ps, t.q, t.fwd(x), op, b, 60);
    return !u.stable || !w.stable || diff <= 3e3 * std::max(u.x, w.x);
  };
  if (!SamePath(a, b)) {
    if (explained(1e300)) throw Discard();
    Fail("original: %s\ntransformed: %s", OutStr(a).c_str(),
         OutStr(b).c_str());
  }
  if (a.threw) return;
  Start y = t.back({b.z, b.l, b.v, b.y});
  Out m2 = b;
  m2.z = y.z;
  m2.l = y.l;
  m2.v = y.v;
  m2.y = y.y;
  const double scale = 1 + InfNorm(All(a)) + InfNorm(All(b));
  const double allow = 1e-9 * scale + 3e3 * std::max(se.x, st.x);
  if (allow > 1e-4 * scale) {
    c.Label("iterates sensitive to rounding");
    throw Discard();
  }
  if (Diff(a, m2) > allow && explained(Diff(a, m2))) {
    c.Label("difference explained by rounding");
    throw Discard();
  }
  VF_CHECK(Diff(a, m2) <= allow,
           "iterates differ by %g (allowance %g)\noriginal: %s\n"
           "transformed and mapped back: %s",
           Diff(a, m2), allow, OutStr(a).c_str(), OutStr(m2).c_str());
}
// ---- solutions
// Largest violation of the KKT conditions and the size of the point.
double Violation(const Qp& q, const Start& x) {
  Kkt k = EvalKkt(q, x.z, x.l, x.v, 0.5);
  return double(k.rz_norm + k.rl_norm + k.min_norm);
}
double Size(const Qp& q, const Start& x) {
  return 1 + x.z.norm() + x.l.norm() + x.v.norm() + (q.b - q.A * x.z).norm();
}
AlgorithmParameters Tight(Src& s, const Problem& p) {
  AlgorithmParameters op = s.Chance(1, 2) ? Defaults(p) : Reliable(p);
  op.abs_tol = s.LogUniform(1e-8, 1e-5);
  op.rel_tol = 0;
  op.max_newton_iters = 1500;
  op.max_prox_iters = 300;
  return op;
}
// Solvable data can satisfy the documented certificate conditions to the
// tolerance; such a verdict says nothing about the other problem.
void SkipToleranceVerdict(Case& c, const Qp& q, const Out& o,
                          const AlgorithmParameters& op) {
  if (o.threw || !Infeasible(o.eflag)) return;
  Certificate(q, o, op.infeas_tol);
  c.Label("tolerance-level certificate on a solvable problem");
  throw Discard();
}
void Solutions(Src& s, Case& c) {
  Problem p = FromQp(GenSolvable(s, Sizes(s, true)));
  const Qp& q = p.qp;
  AlgorithmParameters op = Tight(s, p);
  Start x = RandomStart(s, q);
  Map t = Identity(q);
  Vec zs = q.z;
  const int n = s.Int(1, 4);
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  for (int i = 0; i < n; i++) Equivalence(s, &t, &zs, c);
  if (c.verbose) t.q.Describe(c, "transformed");
  Out a = Run(q, op, x);
  Start fx = t.fwd(x);
  if (s.Chance(1, 3)) fx = Zeros(t.q);
  Out b = Run(t.q, op, fx);
  NoteOut(c, a);
  NoteOut(c, b);
  c.nontrivial = a.newton > 0 && b.newton > 0;
  if (!a.threw && a.eflag == ExitFlag::MAXITERATIONS) {
    c.Label("original: iteration limit");
    throw Discard();
  }
  if (!b.threw && b.eflag == ExitFlag::MAXITERATIONS) {
    c.Label("transformed: iteration limit");
    throw Discard();
  }
  SkipToleranceVerdict(c, q, a, op);
  SkipToleranceVerdict(c, t.q, b, op);
  VF_CHECK(!a.threw && a.eflag == ExitFlag::SUCCESS, "original: %s",
           OutStr(a).c_str());
  VF_CHECK(!b.threw && b.eflag == ExitFlag::SUCCESS,
           "the original is solved, the transformed problem is not: %s",
           OutStr(b).c_str());
  Start xa{a.z, a.l, a.v, a.y}, xb = t.back({b.z, b.l, b.v, b.y});
  const double ra = Violation(q, xa), rb = Violation(q, xb);
  const double size = Size(q, xa) + Size(q, xb);
  const double tol = op.abs_tol / op.alpha;
  // Rows and columns grow by at most 8 per scaling, and dropped slack
  // multipliers by their rows.
  const double grow = std::pow(16.0, n) * (1 + q.A.norm() + t.q.A.norm());
  VF_CHECK(rb <= 20 * tol * grow + 1e-12 * size * grow,
           "the mapped point violates the original KKT conditions by %g "
           "(tolerance %g): %s",
           rb, tol, OutStr(b).c_str());
  const double mu = q.H.selfadjointView<Eigen::Lower>().eigenvalues()(0);
  const double d = (xa.z - xb.z).norm();
  VF_CHECK(mu * d * d <= 8 * (ra + rb + 1e-13 * size) * size,
           "optimal points differ by %g (violations %g, %g)\noriginal: %s\n"
           "transformed: %s",
           d, ra, rb, OutStr(a).c_str(), OutStr(b).c_str());
  const double ja = Objective(q, xa.z), jb = Objective(q, xb.z);
  VF_CHECK(std::fabs(ja - jb) <=
               8 * (ra + rb + 1e-13 * size) * size * (1 + std::sqrt(d)),
           "optimal values %.17g and %.17g", ja, jb);
}
// ---- verdicts
void Verdicts(Src& s, Case& c) {
  const bool unb = s.Chance(1, 2);
  Vec d1, d2;
  Problem p = FromQp(unb ? GenUnbounded(s, Sizes(s), &d1)
                         : GenPrimalInfeasible(s, Sizes(s, true), &d1, &d2));
  const Qp& q = p.qp;
  AlgorithmParameters op = unb ? Reliable(p) : Defaults(p);
  op.rel_tol = 0;  // slack constraints enlarge the norm of the data
  op.max_newton_iters = 2000;
  op.max_prox_iters = 300;
  Start x = s.Chance(1, 2) ? Zeros(q) : RandomStart(s, q);
  Map t = Identity(q);
  Vec none;
  const int n = s.Int(1, 3);
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  for (int i = 0; i < n; i++) Equivalence(s, &t, &none, c);
  if (c.verbose) t.q.Describe(c, "transformed");
  Out a = Run(q, op, x), b = Run(t.q, op, t.fwd(x));
  NoteOut(c, a);
  NoteOut(c, b);
  c.nontrivial = a.newton > 0 && b.newton > 0;
  c.Label(std::string(unb ? "unbounded " : "infeasible ") +
          (b.threw ? "threw" : FlagName(b.eflag)));
  VF_CHECK(!a.threw && !b.threw, "original: %s\ntransformed: %s",
           OutStr(a).c_str(), OutStr(b).c_str());
  if (a.eflag == ExitFlag::MAXITERATIONS ||
      b.eflag == ExitFlag::MAXITERATIONS) {
    c.Label("iteration limit");
    throw Discard();
  }
  VF_CHECK(a.eflag == b.eflag, "original: %s\ntransformed: %s",
           OutStr(a).c_str(), OutStr(b).c_str());
}
// ---- objective
void Objectives(Src& s, Case& c) {
  Problem p = FromQp(GenSolvable(s, Sizes(s, true)));
  const Qp& q = p.qp;
  AlgorithmParameters op = Tight(s, p);
  Start x = RandomStart(s, q);
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  Out a = Run(q, op, x);
  if (!a.threw && a.eflag == ExitFlag::MAXITERATIONS) {
    c.Label("original: iteration limit");
    throw Discard();
  }
  SkipToleranceVerdict(c, q, a, op);
  VF_CHECK(!a.threw && a.eflag == ExitFlag::SUCCESS, "original: %s",
           OutStr(a).c_str());
  Qp r = q;
  Start fx = x;
  const int kind = s.Pick({3, q.nv > 1 ? 3 : 0, 1, q.nl ? 1 : 0});
  int sign = 1;  // of the change of the optimal value
  if (kind == 0) {  // cut the optimum off, or not
    Vec row = GenVec(s, q.nz, true);
    AddRow(&r.A, &r.b, row, row.dot(q.z) + s.Signed(4));
    fx.v = Append(fx.v, 0);
    fx.y = Append(fx.y, 0);
    c.Label("add an inequality");
  } else if (kind == 1) {
    DropRow(&r.A, &r.b, s.Int(0, q.nv - 1));
    fx = Zeros(q);
    fx.v = fx.y = Vec::Zero(q.nv - 1);
    sign = -1;
    c.Label("drop an inequality");
  } else if (kind == 2) {
    Vec row = GenVec(s, q.nz, true);
    AddRow(&r.G, &r.h, row, row.dot(q.z) + s.Signed(2));
    fx.l = Append(fx.l, 0);
    c.Label("add an equality");
  } else {
    const int k = s.Int(0, q.nl - 1);
    DropRow(&r.G, &r.h, k);
    fx.l = Vec::Zero(q.nl - 1);
    sign = -1;
    c.Label("drop an equality");
  }
  Fix(&r);
  if (c.verbose) r.Describe(c, "changed");
  Out b = Run(r, op, fx);
  NoteOut(c, a);
  NoteOut(c, b);
  c.nontrivial = a.newton > 0 && b.newton > 0;
  c.Label(b.threw ? "threw" : FlagName(b.eflag));
  VF_CHECK(!b.threw, "threw: %s", b.what.c_str());
  if (b.eflag == ExitFlag::MAXITERATIONS) throw Discard();
  if (sign < 0) SkipToleranceVerdict(c, r, b, op);
  if (b.eflag != ExitFlag::SUCCESS) {
    // Only more constraints can make it infeasible.
    VF_CHECK(sign > 0 && b.eflag == ExitFlag::PRIMAL_INFEASIBLE,
             "changed problem: %s", OutStr(b).c_str());
    return;
  }
  Start xa{a.z, a.l, a.v, a.y}, xb{b.z, b.l, b.v, b.y};
  const double ja = Objective(q, a.z), jb = Objective(q, b.z);
  const double slack =
      8 * (Violation(q, xa) * Size(q, xa) + Violation(r, xb) * Size(r, xb)) +
      1e-11 * (Size(q, xa) + Size(r, xb)) * (1 + std::fabs(ja));
  VF_CHECK(sign * (jb - ja) >= -slack,
           "optimal value %.17g becomes %.17g (allowance %g)", ja, jb, slack);
}
// ---- optimal control: a change of variables stage by stage
struct Stagewise {
  Ocp o;
  Mat Z, L, V, Y;  // z' = Z z, l' = L l, v' = V v, y' = Y y
};
Start Apply(const Stagewise& w, const Start& x) {
  return Start{w.Z * x.z, w.L * x.l, w.V * x.v, w.Y * x.y};
}
// Signed permutations of the states and inputs of every stage, permutations of
// its constraints; with `scale` also powers of two.
Stagewise Restage(Src& s, const Ocp& p, bool scale) {
  auto map = [&](int n, bool sign) {
    Mat m = Mat::Zero(n, n);
    auto q = Perm(s, n);
    for (int i = 0; i < n; i++)
      m(i, q[i]) = (sign && s.Chance(1, 2) ? -1.0 : 1.0) *
                   (scale ? std::ldexp(1.0, s.Signed(2)) : 1.0);
    return m;
  };
  const bool same = s.Chance(1, 3);  // the same map in every stage
  std::vector<Mat> T, U, C;
  for (int i = 0; i <= p.N; i++) {
    T.push_back(same && i ? T[0] : map(p.nx, true));
    U.push_back(same && i ? U[0] : map(p.nu, true));
    C.push_back(same && i ? C[0] : map(p.nc, false));
  }
  // The inverse of a scaled permutation.
  auto inv = [](const Mat& m) {
    Mat r = m.transpose();
    for (int i = 0; i < r.size(); i++)
      if (r.data()[i] != 0) r.data()[i] = 1 / r.data()[i];
    return r;
  };
  Stagewise w{p, Mat::Zero(p.nz(), p.nz()), Mat::Zero(p.nl(), p.nl()),
              Mat::Zero(p.nv(), p.nv()), Mat::Zero(p.nv(), p.nv())};
  Ocp& o = w.o;
  const int k = p.nx + p.nu;
  for (int i = 0; i <= p.N; i++) {
    const Mat ti = inv(T[i]), ui = inv(U[i]);
    o.Q[i] = ti.transpose() * p.Q[i] * ti;
    o.R[i] = ui.transpose() * p.R[i] * ui;
    o.S[i] = ui.transpose() * p.S[i] * ti;
    o.q[i] = ti.transpose() * p.q[i];
    o.r[i] = ui.transpose() * p.r[i];
    o.E[i] = C[i] * p.E[i] * ti;
    o.L[i] = C[i] * p.L[i] * ui;
    o.d[i] = C[i] * p.d[i];
    if (i < p.N) {
      o.A[i] = T[i + 1] * p.A[i] * ti;
      o.B[i] = T[i + 1] * p.B[i] * ui;
      o.c[i] = T[i + 1] * p.c[i];
    }
    w.Z.block(i * k, i * k, p.nx, p.nx) = T[i];
    w.Z.block(i * k + p.nx, i * k + p.nx, p.nu, p.nu) = U[i];
    w.L.block(i * p.nx, i * p.nx, p.nx, p.nx) = ti.transpose();
    w.V.block(i * p.nc, i * p.nc, p.nc, p.nc) = inv(C[i]).transpose();
    w.Y.block(i * p.nc, i * p.nc, p.nc, p.nc) = C[i];
  }
  o.x0 = T[0] * p.x0;
  return w;
}
Out RunMpc(const Ocp& o, const AlgorithmParameters& op, const Start& x) {
  auto sol = MakeMpc(o.N, o.nx, o.nu, o.nc);
  sol->SetProblem(o);
  sol->Update(op);
  return sol->Solve(x);
}
Sens SensitivityMpc(uint64_t seed, const Ocp& o0, const Start& x0,
                    const AlgorithmParameters& op, const Out& base, int n = 3) {
  Sens r;
  auto sol = MakeMpc(o0.N, o0.nx, o0.nu, o0.nc);
  sol->Update(op);
  for (int t = 0; t < n; t++) {
    Src w(seed * 64 + t);
    Ocp o = o0;
    Start y = x0;
    const double eps = t < 3 ? 1e-15 : t % 2 ? 3e-16 : 1e-14;
    for (auto* f : {&o.Q, &o.R, &o.S, &o.q, &o.r, &o.A, &o.B, &o.c, &o.E, &o.L,
                    &o.d})
      for (auto& m : *f) Wiggle(w, &m, eps);
    for (auto* f : {&o.Q, &o.R})
      for (auto& m : *f) m = (0.5 * (m + m.transpose())).eval();
    Wiggle(w, &o.x0, eps);
    Wiggle(w, &y.z, eps);
    Wiggle(w, &y.l, eps);
    Wiggle(w, &y.v, eps);
    sol->SetProblem(o);
    Out d = sol->Solve(y);
    if (!SamePath(base, d)) {
      r.stable = false;
      return r;
    }
    if (d.threw) continue;
    r.x = std::max(r.x, Diff(base, d));
    r.r = std::max(r.r, std::fabs(base.residual - d.residual));
  }
  return r;
}
void MpcIterates(Src& s, Case& c) {
  Kind kind = Kind(s.Pick({5, 2, 1, 1}));
  Problem p = GenKind(s, kind, OcpSizes(s, s.Chance(2, 3)));
  AlgorithmParameters op = BudgetOptions(s, p);
  op.rel_tol = s.Chance(1, 3) ? 0 : s.LogUniform(1e-6, 1e-1);
  Start x = RandomStart(s, p.qp);
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  Stagewise w = Restage(s, p.ocp, false);
  if (c.verbose) w.o.Describe(c, "transformed");
  const Start wx = Apply(w, x);
  Out a = RunMpc(p.ocp, op, x), b = RunMpc(w.o, op, wx);
  NoteOut(c, a);
  NoteOut(c, b);
  c.nontrivial = a.newton > 0;
  c.Label(a.threw ? "threw" : FlagName(a.eflag));
  const uint64_t ps = s.Below(1u << 30);
  Sens se = SensitivityMpc(ps, p.ocp, x, op, a);
  Sens st = se.stable ? SensitivityMpc(ps, w.o, wx, op, b) : se;
  if (!se.stable || !st.stable) {
    c.Label("path sensitive to rounding");
    throw Discard();
  }
  auto explained = [&](double diff) {
    Sens u = SensitivityMpc(ps, p.ocp, x, op, a, 60),
         v = SensitivityMpc(ps, w.o, wx, op, b, 60);
    return !u.stable || !v.stable || diff <= 3e3 * std::max(u.x, v.x);
  };
  if (!SamePath(a, b)) {
    if (explained(1e300)) throw Discard();
    Fail("original: %s\ntransformed: %s", OutStr(a).c_str(),
         OutStr(b).c_str());
  }
  if (a.threw) return;
  Start y = Apply(w, {a.z, a.l, a.v, a.y});
  Out m2 = a;
  m2.z = y.z;
  m2.l = y.l;
  m2.v = y.v;
  m2.y = y.y;
  const double scale = 1 + InfNorm(All(a)) + InfNorm(All(b));
  const double allow = 1e-9 * scale + 3e3 * std::max(se.x, st.x);
  if (allow > 1e-4 * scale) {
    c.Label("iterates sensitive to rounding");
    throw Discard();
  }
  if (Diff(b, m2) > allow && explained(Diff(b, m2))) {
    c.Label("difference explained by rounding");
    throw Discard();
  }
  VF_CHECK(Diff(b, m2) <= allow,
           "iterates differ by %g (allowance %g)\ntransformed: %s\n"
           "original mapped: %s",
           Diff(b, m2), allow, OutStr(b).c_str(), OutStr(m2).c_str());
}
// Scaled states, inputs and constraints: another path, the same optimum.
void MpcSolutions(Src& s, Case& c) {
  Problem p = GenKind(s, Kind::SOLVABLE, OcpSizes(s, true));
  const Qp& q = p.qp;
  AlgorithmParameters op = Tight(s, p);
  Start x = RandomStart(s, q);
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  Stagewise w = Restage(s, p.ocp, true);
  if (c.verbose) w.o.Describe(c, "transformed");
  Out a = RunMpc(p.ocp, op, x);
  Out b = RunMpc(w.o, op, s.Chance(1, 2) ? Apply(w, x)
                                         : Zeros(FromOcp(w.o).qp));
  NoteOut(c, a);
  NoteOut(c, b);
  c.nontrivial = a.newton > 0 && b.newton > 0;
  for (const Out* o : {&a, &b})
    if (!o->threw && o->eflag == ExitFlag::MAXITERATIONS) {
      c.Label("iteration limit");
      throw Discard();
    }
  SkipToleranceVerdict(c, q, a, op);
  SkipToleranceVerdict(c, FromOcp(w.o).qp, b, op);
  VF_CHECK(!a.threw && a.eflag == ExitFlag::SUCCESS, "original: %s",
           OutStr(a).c_str());
  VF_CHECK(!b.threw && b.eflag == ExitFlag::SUCCESS,
           "the original is solved, the transformed problem is not: %s",
           OutStr(b).c_str());
  auto inv = [](const Mat& m) { return Mat(m.inverse()); };
  Start xa{a.z, a.l, a.v, a.y};
  Start xb{inv(w.Z) * b.z, inv(w.L) * b.l, inv(w.V) * b.v, b.y};
  const double ra = Violation(q, xa), rb = Violation(q, xb);
  const double size = Size(q, xa) + Size(q, xb);
  const double tol = op.abs_tol / op.alpha;
  VF_CHECK(rb <= 20 * tol * 16 + 1e-12 * size * (1 + q.A.norm()),
           "the mapped point violates the original KKT conditions by %g "
           "(tolerance %g): %s",
           rb, tol, OutStr(b).c_str());
  const double mu = q.H.selfadjointView<Eigen::Lower>().eigenvalues()(0);
  const double d = (xa.z - xb.z).norm();
  VF_CHECK(mu * d * d <= 8 * (ra + rb + 1e-13 * size) * size,
           "optimal points differ by %g (violations %g, %g)\noriginal: %s\n"
           "transformed: %s",
           d, ra, rb, OutStr(a).c_str(), OutStr(b).c_str());
}
}  // namespace
namespace vf {
std::vector<Property> kProperties = {{"iterates", Iterates, 100000, 1200000},
                                     {"mpc_iterates", MpcIterates, 30000, 300000},
                                     {"mpc_solutions", MpcSolutions, 15000, 150000},
                                     {"solutions", Solutions, 80000, 1000000},
                                     {"verdicts", Verdicts, 60000, 700000},
                                     {"objective", Objectives, 80000, 1000000}};
}
