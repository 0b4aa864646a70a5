// C24: the sparse factorisation wrapper.
// RUN: plain
// RUN: asan --scale 0.15
#include <Eigen/SparseCore>
#include <memory>

#include "common.h"
#include "tools/qdldl/qdldl_wrapper.h"
using namespace vf;
using fbstab::QdldlWrapper;
namespace vf {
const char* kPropertyId = "C24";
const char* kRule =
    "Histories of 3-20 factorisations and solves with 1-4 wrapper objects "
    "(sizes 1-16, patterns from diagonal to full, arrows both ways, bands) on "
    "quasi-definite matrices, in memory that is released afterwards. Every "
    "solution is substituted into the matrix factored last by that object. "
    "Non-trivial: an object solves after a second factorisation, and its "
    "pattern has off-diagonal entries.";
}
namespace {
using Sparse = Eigen::SparseMatrix<double, Eigen::ColMajor, int>;
struct Object {
  int n = 0;
  std::vector<int> Ap, Ai;
  std::unique_ptr<QdldlWrapper> w;
  std::vector<int> sign;
  Mat A;  // the matrix factored last
  int factored = 0;
  bool shuffled = false;
};
void Pattern(Src& s, Object* o) {
  const int n = o->n = s.Chance(1, 8) ? s.Int(9, 16) : s.Int(1, 8);
  const int kind = s.Pick({4, 1, 1, 1, 1, 2});
  const int density = s.Int(0, 8);
  const bool shuffled = o->shuffled = s.Chance(1, 4);
  o->Ap.push_back(0);
  for (int j = 0; j < n; j++) {
    std::vector<int> col;
    for (int i = 0; i < j; i++) {
      bool on = false;
      switch (kind) {
        case 0: on = s.Chance(density, 8); break;
        case 1: on = false; break;
        case 2: on = true; break;
        case 3: on = i == 0; break;       // fills completely
        case 4: on = j == n - 1; break;   // no fill
        default: on = j - i == 1 || (j - i == 3 && s.Chance(1, 2));
      }
      if (on) col.push_back(i);
    }
    col.push_back(j);
    // The order within a column is free.
    if (shuffled)
      for (size_t k = col.size(); k > 1; k--)
        std::swap(col[k - 1], col[s.Below(k)]);
    o->Ai.insert(o->Ai.end(), col.begin(), col.end());
    o->Ap.push_back(int(o->Ai.size()));
  }
  for (int i = 0; i < n; i++) o->sign.push_back(s.Chance(1, 2) ? -1 : 1);
}
// A quasi-definite matrix with the pattern: diagonally dominant within each
// sign, arbitrary across.
std::vector<double> Values(Src& s, Object* o, Mat* full) {
  const int n = o->n;
  const bool integer = s.Chance(1, 2);
  Mat A = Mat::Zero(n, n);
  std::vector<double> x(o->Ai.size());
  if (s.Chance(1, 3))
    for (auto& g : o->sign) g = s.Chance(1, 2) ? -1 : 1;
  for (int j = 0; j < n; j++)
    for (int p = o->Ap[j]; p < o->Ap[j + 1]; p++) {
      const int i = o->Ai[p];
      if (i == j) continue;
      x[p] = s.Chance(1, 8) ? 0 : integer ? s.Signed(3) : s.Real(3);
      A(i, j) = A(j, i) = x[p];
    }
  for (int j = 0; j < n; j++) {
    double d = integer ? s.Int(1, 3) : 0.5 + s.Unit();
    for (int i = 0; i < n; i++)
      if (i != j && o->sign[i] == o->sign[j]) d += std::fabs(A(i, j));
    A(j, j) = o->sign[j] * d;
    for (int p = o->Ap[j]; p < o->Ap[j + 1]; p++)
      if (o->Ai[p] == j) x[p] = A(j, j);
  }
  *full = A;
  return x;
}
// What Factor needs of a matrix, in memory of exactly the right size.
struct View {
  std::unique_ptr<int[]> p, i;
  std::unique_ptr<double[]> x;
  const int* outerIndexPtr() const { return p.get(); }
  const int* innerIndexPtr() const { return i.get(); }
  const double* valuePtr() const { return x.get(); }
};
void Factor(Src& s, Case& c, Object* o) {
  Mat full;
  std::vector<double> x = Values(s, o, &full);
  const std::vector<double> keep = x;
  const int nnz = int(x.size());
  // Eigen wants its columns sorted.
  if (o->shuffled || s.Chance(1, 2)) {
    View v;
    v.p.reset(new int[o->n + 1]);
    v.i.reset(new int[nnz]);
    v.x.reset(new double[nnz]);
    std::copy(o->Ap.begin(), o->Ap.end(), v.p.get());
    std::copy(o->Ai.begin(), o->Ai.end(), v.i.get());
    std::copy(x.begin(), x.end(), v.x.get());
    o->w->Factor(v);
    VF_CHECK(std::equal(keep.begin(), keep.end(), v.x.get()) &&
                 std::equal(o->Ap.begin(), o->Ap.end(), v.p.get()) &&
                 std::equal(o->Ai.begin(), o->Ai.end(), v.i.get()),
             "the matrix was modified");
    for (int k = 0; k < nnz; k++) v.x[k] = 1e300;
  } else {
    Sparse A = Eigen::Map<const Sparse>(o->n, o->n, nnz, o->Ap.data(),
                                        o->Ai.data(), x.data());
    A.makeCompressed();
    o->w->Factor(A);
    for (int k = 0; k < nnz; k++)
      VF_CHECK(A.valuePtr()[k] == keep[k] && A.innerIndexPtr()[k] == o->Ai[k],
               "the matrix was modified");
  }
  o->A = full;
  o->factored++;
  if (c.verbose) c.Note("factor\n%s", Str(full).c_str());
}
void Solve(Src& s, Case& c, Object* o) {
  Vec b(o->n);
  for (int i = 0; i < o->n; i++)
    b(i) = s.Chance(1, 4) ? 0 : s.Chance(1, 2) ? s.Signed(5) : s.Real(10);
  Vec x = b;
  o->w->Solve(&x);
  VF_CHECK(x.size() == o->n, "the vector was resized");
  LMat A = o->A.cast<long double>();
  LVec lx = x.cast<long double>();
  LVec r = A * lx - b.cast<long double>();
  LVec mag = A.cwiseAbs() * lx.cwiseAbs();
  const long double tol = 1e-10L * (mag.maxCoeff() + InfNorm(b));
  c.Note("solve %s -> %s", StrV(b).c_str(), StrV(x).c_str());
  VF_CHECK(r.cwiseAbs().maxCoeff() <= tol,
           "Ax - b = %Lg for the solution %s of b = %s", r.cwiseAbs().maxCoeff(),
           StrV(x).c_str(), StrV(b).c_str());
  if (o->factored > 1 && int(o->Ai.size()) > o->n) c.nontrivial = true;
}
void Run(Src& s, Case& c) {
  std::vector<std::unique_ptr<Object>> obj;
  const int k = s.Int(1, 4);
  for (int i = 0; i < k; i++) {
    obj.emplace_back(new Object);
    Object* o = obj.back().get();
    Pattern(s, o);
    // The pattern is handed over in memory that does not survive.
    std::unique_ptr<int[]> p(new int[o->n + 1]), q(new int[o->Ai.size()]);
    std::copy(o->Ap.begin(), o->Ap.end(), p.get());
    std::copy(o->Ai.begin(), o->Ai.end(), q.get());
    o->w.reset(new QdldlWrapper(o->n, p.get(), q.get()));
    VF_CHECK(std::equal(o->Ap.begin(), o->Ap.end(), p.get()) &&
                 std::equal(o->Ai.begin(), o->Ai.end(), q.get()),
             "the pattern was modified");
    for (int j = 0; j <= o->n; j++) p[j] = 0x7fffffff;
    for (size_t j = 0; j < o->Ai.size(); j++) q[j] = 0x7fffffff;
    c.Note("object %d: n %d, %d entries", i, o->n, int(o->Ai.size()));
  }
  const int len = s.Int(3, 20);
  for (int t = 0; t < len; t++) {
    Object* o = obj[s.Below(obj.size())].get();
    if (!o->factored || s.Chance(2, 5)) {
      Factor(s, c, o);
      c.Label(o->factored > 1 ? "factor again" : "factor");
    } else {
      Solve(s, c, o);
      c.Label("solve");
    }
  }
  for (auto& o : obj)
    if (o->factored) Solve(s, c, o.get());
}
}  // namespace
namespace vf {
std::vector<Property> kProperties = {{"history", Run, 300000, 5000000}};
}
