#include "api_impl.h"
#include "fbstab/fbstab_dense.h"

namespace vf {
using fbstab::FBstabDense;
namespace {
class Impl : public DenseSolver {
 public:
  Impl(int nz, int nl, int nv) : s_(new FBstabDense(nz, nl, nv)) {}
  void Update(const AlgorithmParameters& p) override {
    FBstabDense::Options o;
    static_cast<AlgorithmParameters&>(o) = p;
    s_->UpdateOptions(o);
  }
  void SetProblem(const Qp& p) override {
    d_.H = p.H;
    d_.G = p.G;
    d_.A = p.A;
    d_.f = p.f;
    d_.h = p.h;
    d_.b = p.b;
    p_ = p;
  }
  void Move(bool assign) override {
    MoveSolver(&s_, assign, [] {
      return std::unique_ptr<FBstabDense>(new FBstabDense(2, 1, 3));
    });
  }
  bool DataIntact() const override {
    auto eq = [](const Mat& a, const Mat& b) {
      return a.rows() == b.rows() && a.cols() == b.cols() &&
             SameBits(Eigen::Map<const Vec>(a.data(), a.size()),
                      Eigen::Map<const Vec>(b.data(), b.size()));
    };
    return eq(d_.H, p_.H) && eq(d_.G, p_.G) && eq(d_.A, p_.A) &&
           eq(d_.f, p_.f) && eq(d_.h, p_.h) && eq(d_.b, p_.b);
  }
  Out Solve(const Start& x, Iface iface,
            const std::function<void(const char*)>& hook) override {
    Out o;
    Recorder os(&o.log, &hook);
    FBstabDense::Variable v(1, 0, 1);
    v.z = x.z;
    v.l = x.l;
    v.v = x.v;
    v.y = x.y;
    using MM = Eigen::Map<Eigen::MatrixXd>;
    using MV = Eigen::Map<Eigen::VectorXd>;
    MV mz(v.z.data(), v.z.size()), ml(v.l.data(), v.l.size()),
        mv(v.v.data(), v.v.size()), my(v.y.data(), v.y.size());
    MM H(d_.H.data(), d_.H.rows(), d_.H.cols()),
        G(d_.G.data(), d_.G.rows(), d_.G.cols()),
        A(d_.A.data(), d_.A.rows(), d_.A.cols());
    MV f(d_.f.data(), d_.f.size()), h(d_.h.data(), d_.h.size()),
        b(d_.b.data(), d_.b.size());
    switch (iface) {
      case Iface::OWNING:
        Call(*s_, d_, &v, &o, os);
        break;
      case Iface::REF: {
        FBstabDense::ProblemDataRef dr(&H, &f, &G, &h, &A, &b);
        FBstabDense::VariableRef vr(&mz, &ml, &mv, &my);
        Call(*s_, dr, &vr, &o, os);
        break;
      }
      case Iface::MIX1: {
        FBstabDense::ProblemDataRef dr(&H, &f, &G, &h, &A, &b);
        Call(*s_, dr, &v, &o, os);
        break;
      }
      case Iface::MIX2: {
        FBstabDense::VariableRef vr(&mz, &ml, &mv, &my);
        Call(*s_, d_, &vr, &o, os);
        break;
      }
    }
    return o;
  }

 private:
  std::unique_ptr<FBstabDense> s_;
  FBstabDense::ProblemData d_;
  Qp p_;
};
}  // namespace
std::unique_ptr<DenseSolver> MakeDense(int nz, int nl, int nv) {
  return std::unique_ptr<DenseSolver>(new Impl(nz, nl, nv));
}
AlgorithmParameters DenseDefaults() { return FBstabDense::DefaultOptions(); }
AlgorithmParameters DenseReliable() { return FBstabDense::ReliableOptions(); }
}  // namespace vf
