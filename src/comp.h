// Problem data objects bound to generated problems, for the component checks.
#pragma once
#include <memory>

#include "common.h"
#include "fbstab/components/dense_data.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/mpc_data.h"
#include "tools/matrix_sequence.h"

namespace vf {

// Holds a problem in caller memory and a data object referring to it.
class Bound {
 public:
  Bound(const Bound&) = delete;
  // ref: hand over maps / views instead of owning containers.
  Bound(const Problem& pr, bool ref = false) : p(pr) {
    using MM = Eigen::Map<Mat>;
    using MV = Eigen::Map<Vec>;
    if (!p.mpc) {
      Qp& q = p.qp;
      if (ref) {
        MM H(q.H.data(), q.nz, q.nz), G(q.G.data(), q.nl, q.nz),
            A(q.A.data(), q.nv, q.nz);
        MV f(q.f.data(), q.nz), h(q.h.data(), q.nl), b(q.b.data(), q.nv);
        dense.reset(new fbstab::DenseData(&H, &f, &G, &h, &A, &b));
      } else {
        dense.reset(
            new fbstab::DenseData(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b));
      }
      data = dense.get();
    } else {
      const Ocp& o = p.ocp;
      const std::vector<Mat>* src[] = {&o.Q, &o.R, &o.S, &o.q, &o.r, &o.A,
                                       &o.B, &o.c, &o.E, &o.L, &o.d};
      for (int k = 0; k < 11; k++) {
        const std::vector<Mat>& m = *src[k];
        seq.emplace_back(int(m.size()), int(m[0].rows()), int(m[0].cols()));
        for (size_t i = 0; i < m.size(); i++) seq[k](int(i)) = m[i];
      }
      x0 = o.x0;
      auto& s = seq;
      if (ref) {
        std::vector<fbstab::MapMatrixSequence> v(s.begin(), s.end());
        MV x(x0.data(), x0.size());
        mpc.reset(new fbstab::MpcData(&v[0], &v[1], &v[2], &v[3], &v[4], &v[5],
                                      &v[6], &v[7], &v[8], &v[9], &v[10], &x));
      } else {
        mpc.reset(new fbstab::MpcData(&s[0], &s[1], &s[2], &s[3], &s[4], &s[5],
                                      &s[6], &s[7], &s[8], &s[9], &s[10],
                                      &x0));
      }
      data = mpc.get();
    }
    keep_ = pr;
  }
  bool Intact() const {
    const Qp &a = p.qp, &b = keep_.qp;
    if (!p.mpc)
      return a.H == b.H && a.G == b.G && a.A == b.A && a.f == b.f &&
             a.h == b.h && a.b == b.b;
    const Ocp& o = keep_.ocp;
    const std::vector<Mat>* src[] = {&o.Q, &o.R, &o.S, &o.q, &o.r, &o.A,
                                     &o.B, &o.c, &o.E, &o.L, &o.d};
    for (int k = 0; k < 11; k++)
      for (size_t i = 0; i < src[k]->size(); i++)
        if (!(seq[k](int(i)) == (*src[k])[i])) return false;
    return x0 == o.x0;
  }
  const Qp& qp() const { return keep_.qp; }

  Problem p;
  std::vector<fbstab::MatrixSequence> seq;
  Vec x0;
  std::unique_ptr<fbstab::DenseData> dense;
  std::unique_ptr<fbstab::MpcData> mpc;
  const fbstab::Data* data = nullptr;

 private:
  Problem keep_;
};

// Sizes: small ones mostly, a few large in one respect.
inline GenOpts CompSizes(Src& s) {
  GenOpts g;
  switch (s.Pick({520, 74, 2, 2, 2})) {
    case 0: break;
    case 1: g.max_nz = 20; g.max_nl = 9; g.max_nv = 30; break;
    case 2: g.max_nz = 70; g.max_nl = 5; g.max_nv = 10; break;
    case 3: g.max_nz = 3; g.max_nl = 70; g.max_nv = 5; break;
    case 4: g.max_nz = 3; g.max_nl = 2; g.max_nv = 300; break;
  }
  return g;
}
inline OcpOpts CompOcpSizes(Src& s) {
  OcpOpts o;
  switch (s.Pick({520, 74, 2, 2, 2, 2})) {
    case 0: break;
    case 1: o.max_N = 12; o.max_nx = 6; o.max_nu = 6; o.max_nc = 9; break;
    case 2: o.max_N = 140; o.max_nx = 2; o.max_nu = 2; o.max_nc = 2; break;
    case 3: o.max_N = 2; o.max_nx = 34; o.max_nu = 2; o.max_nc = 2; break;
    case 4: o.max_N = 2; o.max_nx = 2; o.max_nu = 34; o.max_nc = 2; break;
    case 5: o.max_N = 2; o.max_nx = 2; o.max_nu = 2; o.max_nc = 140; break;
  }
  return o;
}
// Almost, but not quite, of a special structure: zero, diagonal, (a multiple
// of) the identity, triangular - up to entries of relative size 2^-10..2^-50.
inline void Almost(Src& s, Mat* x, bool symmetric) {
  Mat& m = *x;
  const int kind = s.Int(symmetric ? 1 : 0, symmetric ? 2 : 3);
  const int e = s.Int(10, 50), c = s.Int(1, 4);
  for (int i = 0; i < m.rows(); i++)
    for (int j = 0; j < (symmetric ? i + 1 : m.cols()); j++) {
      const bool keep = kind == 0 ? false : kind == 3 ? j <= i : i == j;
      if (i == j && kind == 2) m(i, j) = c;
      else if (i == j && symmetric) m(i, j) = s.Int(1, 5);
      else if (!keep) m(i, j) = std::ldexp(double(s.Signed(3)), -e);
      if (symmetric) m(j, i) = m(i, j);
    }
}
inline void Almost(Src& s, Qp* p) {
  if (s.Chance(2, 3)) Almost(s, &p->H, true);
  if (p->nl && s.Chance(1, 3)) Almost(s, &p->G, false);
  if (s.Chance(1, 3)) Almost(s, &p->A, false);
}
inline void Almost(Src& s, Ocp* p) {
  const bool hess = s.Chance(2, 3);
  const int pick = s.Int(0, 15);
  auto all = [&](std::vector<Mat>* v, bool sym) {
    for (Mat& m : *v) Almost(s, &m, sym);
  };
  if (hess) {
    all(&p->Q, true);
    all(&p->R, true);
    for (Mat& m : p->S)
      m = m.unaryExpr([](double t) { return std::ldexp(t, -20); });
  }
  if (pick & 1) all(&p->A, false);
  if (pick & 2) all(&p->B, false);
  if (pick & 4) all(&p->E, false);
  if (pick & 8) all(&p->L, false);
}
// A problem of any structure, dense or optimal control.
inline Problem GenData(Src& s) {
  // Bounds far away, as used for "no bound".
  auto far = [&](double& x) {
    if (s.Chance(1, 2)) x = std::ldexp(x, s.Int(10, 36));
  };
  if (s.Chance(1, 2)) {
    const OcpOpts o = CompOcpSizes(s);
    Ocp p = s.Chance(1, 3) ? GenOcp(s, o) : GenAnyOcp(s, o);
    if (s.Chance(1, 30))
      for (Mat& d : p.d)
        for (int i = 0; i < d.size(); i++) far(d(i));
    if (s.Chance(1, 20)) Almost(s, &p);
    if (s.Chance(1, 25)) {  // forcing terms of any magnitude
      std::vector<Mat>* v[] = {&p.q, &p.r, &p.c};
      const int k = s.Int(0, 4), e = s.Int(-40, 30);
      if (k < 3)
        for (Mat& m : *v[k]) m *= std::ldexp(1.0, e);
      else
        p.x0 *= std::ldexp(1.0, e);
    }
    return FromOcp(p);
  }
  const GenOpts g = CompSizes(s);
  Qp p = s.Chance(1, 3) ? GenSolvable(s, g) : GenAnyQp(s, g);
  if (s.Chance(1, 30))
    for (int i = 0; i < p.nv; i++) far(p.b(i));
  if (s.Chance(1, 20)) Almost(s, &p);
  if (s.Chance(1, 25)) (s.Chance(1, 2) ? p.f : p.h) *= std::ldexp(1.0, s.Int(-40, 30));
  return FromQp(p);
}
// The sizes of the problem, other contents.
inline Problem GenDataLike(Src& s, const Problem& p) {
  if (p.mpc) {
    OcpOpts o;
    o.fixed = true;
    o.max_N = p.ocp.N; o.max_nx = p.ocp.nx; o.max_nu = p.ocp.nu;
    o.max_nc = p.ocp.nc;
    return FromOcp(GenAnyOcp(s, o));
  }
  GenOpts g;
  g.fixed = true;
  g.max_nz = p.qp.nz; g.max_nl = p.qp.nl; g.max_nv = p.qp.nv;
  return FromQp(GenAnyQp(s, g));
}
// Entries over several orders of magnitude, with zeros and exact integers.
inline double GenScalar(Src& s) {
  switch (s.Pick({2, 4, 3, 1})) {
    case 0: return 0;
    case 1: return s.Signed(5);
    case 2: return s.Real(4);
    default: return (s.Chance(1, 2) ? -1 : 1) * (s.Chance(1, 2) ? s.LogUniform(1e-9, 1e6)
                             : s.LogUniform(1e-18, 1e-6));
  }
}
inline Vec GenV(Src& s, int n) {
  Vec v(n);
  for (int i = 0; i < n; i++) v(i) = GenScalar(s);
  return v;
}
inline void FillVar(Src& s, fbstab::FullVariable* x) {
  x->z() = GenV(s, x->z().size());
  x->l() = GenV(s, x->l().size());
  x->v() = GenV(s, x->v().size());
}
inline Start Snap(const fbstab::FullVariable& x) {
  return {x.z(), x.l(), x.v(), x.y()};
}
inline bool Same(const Start& a, const Start& b) {
  return SameBits(a.z, b.z) && SameBits(a.l, b.l) && SameBits(a.v, b.v) &&
         SameBits(a.y, b.y);
}
inline long double MaxAbs(const LVec& v) {
  return v.size() ? v.cwiseAbs().maxCoeff() : 0.0L;
}
}  // namespace vf
