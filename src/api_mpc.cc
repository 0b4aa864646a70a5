#include "api_impl.h"
#include "fbstab/fbstab_mpc.h"

namespace vf {
using fbstab::FBstabMpc;
using fbstab::MatrixSequence;
namespace {
MatrixSequence Seq(const std::vector<Mat>& m, int rows, int cols) {
  MatrixSequence s(int(m.size()), rows, cols);
  for (size_t i = 0; i < m.size(); i++) s(int(i)) = m[i];
  return s;
}
bool EqSeq(const MatrixSequence& s, const std::vector<Mat>& m) {
  if (s.length() != int(m.size())) return false;
  for (size_t i = 0; i < m.size(); i++) {
    Mat a = s(int(i));
    if (a.rows() != m[i].rows() || a.cols() != m[i].cols()) return false;
    if (!SameBits(Eigen::Map<const Vec>(a.data(), a.size()),
                  Eigen::Map<const Vec>(m[i].data(), m[i].size())))
      return false;
  }
  return true;
}
class Impl : public MpcSolver {
 public:
  Impl(int N, int nx, int nu, int nc) : s_(new FBstabMpc(N, nx, nu, nc)) {}
  void Update(const AlgorithmParameters& p) override {
    FBstabMpc::Options o;
    static_cast<AlgorithmParameters&>(o) = p;
    s_->UpdateOptions(o);
  }
  void SetProblem(const Ocp& p) override {
    p_ = p;
    d_.Q = Seq(p.Q, p.nx, p.nx);
    d_.R = Seq(p.R, p.nu, p.nu);
    d_.S = Seq(p.S, p.nu, p.nx);
    d_.q = Seq(p.q, p.nx, 1);
    d_.r = Seq(p.r, p.nu, 1);
    d_.A = Seq(p.A, p.nx, p.nx);
    d_.B = Seq(p.B, p.nx, p.nu);
    d_.c = Seq(p.c, p.nx, 1);
    d_.E = Seq(p.E, p.nc, p.nx);
    d_.L = Seq(p.L, p.nc, p.nu);
    d_.d = Seq(p.d, p.nc, 1);
    d_.x0 = p.x0;
  }
  void Move(bool assign) override {
    MoveSolver(&s_, assign, [] {
      return std::unique_ptr<FBstabMpc>(new FBstabMpc(2, 1, 1, 2));
    });
  }
  bool DataIntact() const override {
    return EqSeq(d_.Q, p_.Q) && EqSeq(d_.R, p_.R) && EqSeq(d_.S, p_.S) &&
           EqSeq(d_.q, p_.q) && EqSeq(d_.r, p_.r) && EqSeq(d_.A, p_.A) &&
           EqSeq(d_.B, p_.B) && EqSeq(d_.c, p_.c) && EqSeq(d_.E, p_.E) &&
           EqSeq(d_.L, p_.L) && EqSeq(d_.d, p_.d) && SameBits(d_.x0, p_.x0);
  }
  Out Solve(const Start& x, Iface iface,
            const std::function<void(const char*)>& hook) override {
    Out o;
    Recorder os(&o.log, &hook);
    FBstabMpc::Variable v(1, 1, 1, 1);
    v.z = x.z;
    v.l = x.l;
    v.v = x.v;
    v.y = x.y;
    using MV = Eigen::Map<Eigen::VectorXd>;
    MV mz(v.z.data(), v.z.size()), ml(v.l.data(), v.l.size()),
        mv(v.v.data(), v.v.size()), my(v.y.data(), v.y.size());
    auto ref = [&] {
      FBstabMpc::ProblemDataRef dr;
      dr.Q = fbstab::MapMatrixSequence(d_.Q);
      dr.R = fbstab::MapMatrixSequence(d_.R);
      dr.S = fbstab::MapMatrixSequence(d_.S);
      dr.q = fbstab::MapMatrixSequence(d_.q);
      dr.r = fbstab::MapMatrixSequence(d_.r);
      dr.A = fbstab::MapMatrixSequence(d_.A);
      dr.B = fbstab::MapMatrixSequence(d_.B);
      dr.c = fbstab::MapMatrixSequence(d_.c);
      dr.E = fbstab::MapMatrixSequence(d_.E);
      dr.L = fbstab::MapMatrixSequence(d_.L);
      dr.d = fbstab::MapMatrixSequence(d_.d);
      dr.SetX0(d_.x0);
      return dr;
    };
    switch (iface) {
      case Iface::OWNING:
        Call(*s_, d_, &v, &o, os);
        break;
      case Iface::REF: {
        FBstabMpc::ProblemDataRef dr(&d_.Q, &d_.R, &d_.S, &d_.q, &d_.r, &d_.A,
                                     &d_.B, &d_.c, &d_.E, &d_.L, &d_.d,
                                     &d_.x0);
        FBstabMpc::VariableRef vr(mz, ml, mv, my);
        Call(*s_, dr, &vr, &o, os);
        break;
      }
      case Iface::MIX1: {
        FBstabMpc::ProblemDataRef dr = ref();
        Call(*s_, dr, &v, &o, os);
        break;
      }
      case Iface::MIX2: {
        FBstabMpc::VariableRef vr(mz, ml, mv, my);
        Call(*s_, d_, &vr, &o, os);
        break;
      }
    }
    return o;
  }

 private:
  std::unique_ptr<FBstabMpc> s_;
  FBstabMpc::ProblemData d_;
  Ocp p_;
};
}  // namespace
std::unique_ptr<MpcSolver> MakeMpc(int N, int nx, int nu, int nc) {
  return std::unique_ptr<MpcSolver>(new Impl(N, nx, nu, nc));
}
AlgorithmParameters MpcDefaults() { return FBstabMpc::DefaultOptions(); }
AlgorithmParameters MpcReliable() { return FBstabMpc::ReliableOptions(); }
}  // namespace vf
