#include "qp.h"

#include <cstdio>
#include <sstream>

namespace vf {

std::string Str(const Mat& m) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (int i = 0; i < m.rows(); i++) {
    if (i) o << "; ";
    for (int j = 0; j < m.cols(); j++) o << (j ? " " : "") << m(i, j);
  }
  o << "]";
  return o.str();
}

void Qp::Describe(Case& c, const char* name) const {
  if (!c.verbose) return;
  c.Note("%s nz=%d nl=%d nv=%d", name, nz, nl, nv);
  c.Note(" H=%s", Str(H).c_str());
  c.Note(" f=%s", StrV(f).c_str());
  if (nl) c.Note(" G=%s h=%s", Str(G).c_str(), StrV(h).c_str());
  c.Note(" A=%s", Str(A).c_str());
  c.Note(" b=%s", StrV(b).c_str());
  if (z.size())
    c.Note(" known solution z=%s l=%s v=%s", StrV(z).c_str(), StrV(l).c_str(),
           StrV(v).c_str());
}

double Qp::ForcingNorm() const {
  return std::sqrt(f.squaredNorm() + h.squaredNorm() + b.squaredNorm());
}

void Ocp::Describe(Case& cs, const char* name) const {
  if (!cs.verbose) return;
  cs.Note("%s N=%d nx=%d nu=%d nc=%d x0=%s", name, N, nx, nu, nc,
          StrV(x0).c_str());
  for (int i = 0; i <= N; i++) {
    cs.Note(" [%d] Q=%s R=%s S=%s q=%s r=%s E=%s L=%s d=%s", i,
            Str(Q[i]).c_str(), Str(R[i]).c_str(), Str(S[i]).c_str(),
            Str(q[i].transpose()).c_str(), Str(r[i].transpose()).c_str(),
            Str(E[i]).c_str(), Str(L[i]).c_str(),
            Str(d[i].transpose()).c_str());
    if (i < N)
      cs.Note("     A=%s B=%s c=%s", Str(A[i]).c_str(), Str(B[i]).c_str(),
              Str(c[i].transpose()).c_str());
  }
}

Qp Ocp::Dense() const {
  Qp p;
  const int ns = nx + nu;
  p.nz = nz();
  p.nl = nl();
  p.nv = nv();
  p.H = Mat::Zero(p.nz, p.nz);
  p.G = Mat::Zero(p.nl, p.nz);
  p.A = Mat::Zero(p.nv, p.nz);
  p.f = Vec::Zero(p.nz);
  p.h = Vec::Zero(p.nl);
  p.b = Vec::Zero(p.nv);
  for (int i = 0; i <= N; i++) {
    const int o = i * ns;
    p.H.block(o, o, nx, nx) = Q[i];
    p.H.block(o + nx, o, nu, nx) = S[i];
    p.H.block(o, o + nx, nx, nu) = S[i].transpose();
    p.H.block(o + nx, o + nx, nu, nu) = R[i];
    p.f.segment(o, nx) = q[i];
    p.f.segment(o + nx, nu) = r[i];
    p.A.block(i * nc, o, nc, nx) = E[i];
    p.A.block(i * nc, o + nx, nc, nu) = L[i];
    p.b.segment(i * nc, nc) = -d[i];
    p.G.block(i * nx, o, nx, nx) = -Mat::Identity(nx, nx);
    if (i == 0) {
      p.h.segment(0, nx) = -x0;
    } else {
      p.G.block(i * nx, o - ns, nx, nx) = A[i - 1];
      p.G.block(i * nx, o - ns + nx, nx, nu) = B[i - 1];
      p.h.segment(i * nx, nx) = -c[i - 1];
    }
  }
  p.z = z;
  p.l = l;
  p.v = v;
  p.strongly_convex = strongly_convex;
  p.exact = exact;
  return p;
}

Kkt EvalKkt(const Qp& p, const Vec& z, const Vec& l, const Vec& v,
            double alpha, const Vec* y_used) {
  Kkt k;
  LVec zl = z.cast<long double>(), ll = l.cast<long double>(),
       vl = v.cast<long double>();
  LMat H = p.H.cast<long double>(), G = p.G.cast<long double>(),
       A = p.A.cast<long double>();
  k.rz = H * zl + p.f.cast<long double>() + A.transpose() * vl;
  if (p.nl) k.rz += G.transpose() * ll;
  k.rl = p.h.cast<long double>();
  if (p.nl) k.rl -= G * zl;
  k.y = p.b.cast<long double>() - A * zl;
  LVec y = y_used ? LVec(y_used->cast<long double>()) : k.y;
  k.rz_norm = k.rz.norm();
  k.rl_norm = p.nl ? k.rl.norm() : 0.0L;
  k.rv.resize(p.nv);
  long double mn = 0;
  for (int i = 0; i < p.nv; i++) {
    long double m = std::min(y(i), vl(i));
    mn += m * m;
    long double pos = (y(i) > 0 ? y(i) : 0) * (vl(i) > 0 ? vl(i) : 0);
    k.rv(i) = alpha * m + (1.0L - (long double)alpha) * pos;
  }
  k.min_norm = std::sqrt(mn);
  long double rvn = k.rv.norm();
  k.pnr = std::sqrt(k.rz_norm * k.rz_norm + k.rl_norm * k.rl_norm + rvn * rvn);
  // Magnitude of what is summed.
  LVec az = zl.cwiseAbs(), al = ll.cwiseAbs(), av = vl.cwiseAbs();
  LVec t = H.cwiseAbs() * az + p.f.cwiseAbs().cast<long double>() +
           A.cwiseAbs().transpose() * av;
  if (p.nl) t += G.cwiseAbs().transpose() * al;
  long double sc = t.norm();
  if (p.nl)
    sc += (p.h.cwiseAbs().cast<long double>() + G.cwiseAbs() * az).norm();
  LVec ym = p.b.cwiseAbs().cast<long double>() + A.cwiseAbs() * az;
  sc += ym.norm() + av.norm();
  for (int i = 0; i < p.nv; i++) sc += (1.0L - alpha) * ym(i) * av(i);
  k.scale = sc;
  return k;
}

double Objective(const Qp& p, const Vec& z) {
  LVec zl = z.cast<long double>();
  LVec Hz = p.H.cast<long double>() * zl;
  return double(0.5L * zl.dot(Hz) + p.f.cast<long double>().dot(zl));
}

double GenEntry(Src& s, bool integer) {
  return integer ? double(s.Signed(3)) : s.Real(2.0);
}

Mat GenMat(Src& s, int r, int c, bool integer, int zero_in_8) {
  Mat m(r, c);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++)
      m(i, j) = s.Chance(zero_in_8, 8) ? 0.0 : GenEntry(s, integer);
  return m;
}

Vec GenVec(Src& s, int n, bool integer, int zero_in_8) {
  Vec v(n);
  for (int i = 0; i < n; i++)
    v(i) = s.Chance(zero_in_8, 8) ? 0.0 : GenEntry(s, integer);
  return v;
}

Mat GenPsd(Src& s, int n, bool integer, bool force_strong, bool* strong) {
  *strong = false;
  int kind = s.Pick({3, 3, 2, force_strong ? 0 : 2, force_strong ? 0 : 1});
  Mat H = Mat::Zero(n, n);
  switch (kind) {
    case 0: {  // M'M + D
      Mat M = GenMat(s, n, n, integer);
      H = M.transpose() * M;
      for (int i = 0; i < n; i++) H(i, i) += s.Int(1, 4);
      *strong = true;
      break;
    }
    case 1: {  // diagonal
      for (int i = 0; i < n; i++)
        H(i, i) = s.Int(force_strong ? 1 : 0, 5);
      *strong = H.diagonal().minCoeff() >= 1;
      break;
    }
    case 2: {  // tridiagonal, positive definite
      for (int i = 0; i < n; i++) H(i, i) = 3 + s.Int(0, 2);
      for (int i = 0; i + 1 < n; i++) {
        double e = s.Signed(1);
        H(i, i + 1) = H(i + 1, i) = e;
      }
      *strong = true;
      break;
    }
    case 3: {  // low rank
      int r = s.Int(0, n);
      Mat M = GenMat(s, r, n, integer);
      if (r) H = M.transpose() * M;
      break;
    }
    case 4:  // linear program
      break;
  }
  return H;
}

namespace {
// Rows of G (nl) and A (nv), with redundancy.
void GenRows(Src& s, Qp* p, bool integer) {
  p->G = GenMat(s, p->nl, p->nz, integer);
  for (int i = 1; i < p->nl; i++) {
    if (!s.Chance(1, 6)) continue;  // linearly dependent row
    int j = s.Int(0, i - 1);
    p->G.row(i) = double(s.Signed(2)) * p->G.row(j);
  }
  p->A.resize(p->nv, p->nz);
  for (int i = 0; i < p->nv; i++) {
    switch (s.Pick({4, 3, 1, 1})) {
      case 0:
        p->A.row(i) = GenMat(s, 1, p->nz, integer);
        break;
      case 1: {  // simple bound
        p->A.row(i).setZero();
        p->A(i, s.Int(0, p->nz - 1)) = s.Chance(1, 2) ? 1.0 : -1.0;
        break;
      }
      case 2:  // zero row
        p->A.row(i).setZero();
        break;
      case 3:  // multiple of an earlier row
        if (i > 0)
          p->A.row(i) = double(s.Signed(2)) * p->A.row(s.Int(0, i - 1));
        else
          p->A.row(i).setOnes();
        break;
    }
  }
}

void GenSizes(Src& s, const GenOpts& o, Qp* p) {
  if (o.fixed) {
    p->nz = o.max_nz;
    p->nl = o.max_nl;
    p->nv = o.max_nv;
    return;
  }
  p->nz = s.Int(1, o.max_nz);
  p->nl = s.Chance(2, 3) ? s.Int(0, o.max_nl) : 0;
  p->nv = s.Int(1, o.max_nv);
}
}  // namespace

Qp GenSolvable(Src& s, const GenOpts& o) {
  Qp p;
  GenSizes(s, o, &p);
  const bool integer = !o.allow_real || s.Chance(1, 2);
  // A singular Hessian needs exact data for the solution to exist at all.
  p.H = GenPsd(s, p.nz, integer, o.force_strong || !integer,
               &p.strongly_convex);
  GenRows(s, &p, integer);
  p.z = GenVec(s, p.nz, integer);
  p.l = GenVec(s, p.nl, integer);
  p.v = Vec::Zero(p.nv);
  Vec y = Vec::Zero(p.nv);
  for (int i = 0; i < p.nv; i++) {
    switch (s.Pick({4, 4, 1})) {
      case 0:  // inactive
        y(i) = integer ? s.Int(1, 4) : 0.25 + 3.0 * s.Unit();
        break;
      case 1:  // strongly active
        p.v(i) = integer ? s.Int(1, 4) : 0.25 + 3.0 * s.Unit();
        break;
      case 2:  // weakly active
        break;
    }
  }
  p.b = p.A * p.z + y;
  p.h = p.G * p.z;
  p.f = -(p.H * p.z + p.A.transpose() * p.v);
  if (p.nl) p.f -= p.G.transpose() * p.l;
  p.exact = integer;
  return p;
}

Qp GenPrimalInfeasible(Src& s, const GenOpts& o, Vec* cert_l, Vec* cert_v) {
  Qp p;
  GenSizes(s, o, &p);
  bool strong;
  p.H = GenPsd(s, p.nz, true, o.force_strong, &strong);
  p.strongly_convex = strong;
  GenRows(s, &p, true);
  p.f = GenVec(s, p.nz, true);
  Vec z0 = GenVec(s, p.nz, true);
  p.b = p.A * z0;
  for (int i = 0; i < p.nv; i++) p.b(i) += s.Int(0, 3);
  p.h = p.G * z0;
  // Farkas multipliers with one row chosen so that A'v + G'l = 0, b'v+h'l < 0.
  Vec v = Vec::Zero(p.nv), l = Vec::Zero(p.nl);
  for (int i = 0; i < p.nv; i++) v(i) = s.Chance(1, 3) ? s.Int(1, 2) : 0;
  for (int i = 0; i < p.nl; i++) l(i) = s.Chance(1, 3) ? s.Signed(2) : 0;
  const int delta = s.Int(1, 3);
  if (p.nl > 0 && s.Chance(1, 3)) {
    int k = s.Int(0, p.nl - 1);
    double sg = s.Chance(1, 2) ? 1 : -1;
    l(k) = 0;
    Vec comb = p.A.transpose() * v + p.G.transpose() * l;
    double val = p.b.dot(v) + p.h.dot(l);
    l(k) = sg;
    p.G.row(k) = -sg * comb.transpose();
    p.h(k) = sg * (-val - delta);
  } else {
    int k = s.Int(0, p.nv - 1);
    v(k) = 0;
    Vec comb = p.A.transpose() * v;
    if (p.nl) comb += p.G.transpose() * l;
    double val = p.b.dot(v) + (p.nl ? p.h.dot(l) : 0.0);
    v(k) = 1;
    p.A.row(k) = -comb.transpose();
    p.b(k) = -val - delta;
  }
  *cert_l = l;
  *cert_v = v;
  p.exact = true;
  return p;
}

Qp GenUnbounded(Src& s, const GenOpts& o, Vec* dir) {
  Qp p;
  GenSizes(s, o, &p);
  const int n = p.nz;
  // In coordinates w with direction e1, then z = U w, U unimodular.
  bool strong;
  Mat Hw = Mat::Zero(n, n);
  if (n > 1)
    Hw.block(1, 1, n - 1, n - 1) = GenPsd(s, n - 1, true, false, &strong);
  GenRows(s, &p, true);
  p.G.col(0).setZero();
  for (int i = 0; i < p.nv; i++)
    p.A(i, 0) = s.Chance(1, 2) ? 0.0 : -double(s.Int(0, 2));
  Vec fw = GenVec(s, n, true);
  fw(0) = -double(s.Int(1, 3));
  Mat Ui = Mat::Identity(n, n);  // inverse of U
  Vec d = Vec::Zero(n);
  d(0) = 1;
  const int steps = n > 1 ? s.Int(0, 3) : 0;
  for (int t = 0; t < steps; t++) {
    int i = s.Int(0, n - 1), j = s.Int(0, n - 1);
    if (i == j) continue;
    double k = s.Signed(1);
    // U <- (I + k e_i e_j') U, so Ui <- Ui (I - k e_i e_j').
    Ui.col(j) -= k * Ui.col(i);
    d(i) += k * d(j);
  }
  p.H = Ui.transpose() * Hw * Ui;
  p.G = p.G * Ui;
  p.A = p.A * Ui;
  p.f = Ui.transpose() * fw;
  Vec z0 = GenVec(s, n, true);
  p.h = p.G * z0;
  p.b = p.A * z0;
  for (int i = 0; i < p.nv; i++) p.b(i) += s.Int(0, 3);
  *dir = d;
  p.exact = true;
  return p;
}

namespace {
void GenOcpSizes(Src& s, const OcpOpts& o, Ocp* p) {
  if (o.fixed) {
    p->N = o.max_N;
    p->nx = o.max_nx;
    p->nu = o.max_nu;
    p->nc = o.max_nc;
    return;
  }
  p->N = s.Int(1, o.max_N);
  p->nx = s.Int(1, o.max_nx);
  p->nu = s.Int(1, o.max_nu);
  p->nc = s.Int(1, o.max_nc);
}
}  // namespace

Ocp GenOcp(Src& s, const OcpOpts& o) {
  Ocp p;
  GenOcpSizes(s, o, &p);
  const int nx = p.nx, nu = p.nu, nc = p.nc, N = p.N;
  const bool integer = !o.allow_real || s.Chance(1, 2);
  p.exact = integer;
  p.strongly_convex = true;
  const bool time_varying = s.Chance(2, 3);
  std::vector<Vec> x(N + 1), u(N + 1), y(N + 1), l(N + 1), v(N + 1);
  for (int i = 0; i <= N; i++) {
    bool strong = true;
    if (i == 0 || time_varying) {
      Mat W = GenPsd(s, nx + nu, integer, o.force_strong || !integer, &strong);
      p.Q.push_back(W.block(0, 0, nx, nx));
      p.S.push_back(W.block(nx, 0, nu, nx));
      p.R.push_back(W.block(nx, nx, nu, nu));
      p.strongly_convex &= strong;
      p.E.push_back(GenMat(s, nc, nx, integer, 4));
      p.L.push_back(GenMat(s, nc, nu, integer, 4));
    } else {
      p.Q.push_back(p.Q[0]);
      p.S.push_back(p.S[0]);
      p.R.push_back(p.R[0]);
      p.E.push_back(p.E[0]);
      p.L.push_back(p.L[0]);
    }
    if (i < N) {
      if (i == 0 || time_varying) {
        // Moderate dynamics.
        Mat A = GenMat(s, nx, nx, integer, 5);
        p.A.push_back(integer ? A : Mat(0.5 * A));
        p.B.push_back(GenMat(s, nx, nu, integer, 3));
      } else {
        p.A.push_back(p.A[0]);
        p.B.push_back(p.B[0]);
      }
    }
    x[i] = GenVec(s, nx, integer);
    u[i] = GenVec(s, nu, integer);
    l[i] = GenVec(s, nx, integer);
    v[i] = Vec::Zero(nc);
    y[i] = Vec::Zero(nc);
    for (int k = 0; k < nc; k++) {
      switch (s.Pick({5, 3, 1})) {
        case 0:
          y[i](k) = integer ? s.Int(1, 4) : 0.25 + 3.0 * s.Unit();
          break;
        case 1:
          v[i](k) = integer ? s.Int(1, 4) : 0.25 + 3.0 * s.Unit();
          break;
        case 2:
          break;
      }
    }
  }
  p.x0 = x[0];
  p.z.resize(p.nz());
  p.l.resize(p.nl());
  p.v.resize(p.nv());
  for (int i = 0; i <= N; i++) {
    p.z.segment(i * (nx + nu), nx) = x[i];
    p.z.segment(i * (nx + nu) + nx, nu) = u[i];
    p.l.segment(i * nx, nx) = l[i];
    p.v.segment(i * nc, nc) = v[i];
    if (i < N) p.c.push_back(x[i + 1] - p.A[i] * x[i] - p.B[i] * u[i]);
    p.d.push_back(-(p.E[i] * x[i] + p.L[i] * u[i]) - y[i]);
    Vec q = -(p.Q[i] * x[i] + p.S[i].transpose() * u[i]) + l[i] -
            p.E[i].transpose() * v[i];
    Vec r = -(p.S[i] * x[i] + p.R[i] * u[i]) - p.L[i].transpose() * v[i];
    if (i < N) {
      q -= p.A[i].transpose() * l[i + 1];
      r -= p.B[i].transpose() * l[i + 1];
    }
    p.q.push_back(q);
    p.r.push_back(r);
  }
  return p;
}

Qp GenAnyQp(Src& s, const GenOpts& o) {
  Qp p;
  GenSizes(s, o, &p);
  const bool integer = s.Chance(1, 3);
  bool strong;
  p.H = GenPsd(s, p.nz, integer, false, &strong);
  p.strongly_convex = strong;
  GenRows(s, &p, integer);
  p.f = GenVec(s, p.nz, integer);
  p.h = GenVec(s, p.nl, integer);
  p.b = GenVec(s, p.nv, integer);
  return p;
}

Ocp GenAnyOcp(Src& s, const OcpOpts& o) {
  Ocp p;
  GenOcpSizes(s, o, &p);
  const bool integer = s.Chance(1, 3);
  for (int i = 0; i <= p.N; i++) {
    bool strong;
    Mat W = GenPsd(s, p.nx + p.nu, integer, o.force_strong, &strong);
    p.Q.push_back(W.block(0, 0, p.nx, p.nx));
    p.S.push_back(W.block(p.nx, 0, p.nu, p.nx));
    p.R.push_back(W.block(p.nx, p.nx, p.nu, p.nu));
    p.q.push_back(GenVec(s, p.nx, integer));
    p.r.push_back(GenVec(s, p.nu, integer));
    p.E.push_back(GenMat(s, p.nc, p.nx, integer));
    p.L.push_back(GenMat(s, p.nc, p.nu, integer));
    p.d.push_back(GenVec(s, p.nc, integer));
    if (i < p.N) {
      p.A.push_back(GenMat(s, p.nx, p.nx, integer));
      p.B.push_back(GenMat(s, p.nx, p.nu, integer));
      p.c.push_back(GenVec(s, p.nx, integer));
    }
  }
  p.x0 = GenVec(s, p.nx, integer);
  return p;
}


Ocp GenOcpInfeasible(Src& s, const OcpOpts& o) {
  Ocp p = GenAnyOcp(s, o);
  const int nx = p.nx, nu = p.nu, nc = p.nc, N = p.N;
  p.strongly_convex = o.force_strong;
  const int delta = s.Int(1, 3);
  int kind = s.Pick({2, 3, 2, nc >= 2 ? 3 : 0});
  int i = s.Int(0, nc - 1);
  if (kind == 0) {  // 0 + d <= 0 with d > 0
    int k = s.Int(0, N);
    p.E[k].row(i).setZero();
    p.L[k].row(i).setZero();
    p.d[k](i, 0) = delta;
  } else if (kind == 1) {  // violated by the given initial state
    Vec w = GenVec(s, nx, true);
    p.E[0].row(i) = w.transpose();
    p.L[0].row(i).setZero();
    p.d[0](i, 0) = -w.dot(p.x0) + delta;
  } else if (kind == 2) {  // violated by an uncontrolled state at stage 1
    int j = s.Int(0, nx - 1);
    p.B[0].row(j).setZero();
    double x1 = p.A[0].row(j).dot(p.x0) + p.c[0](j, 0);
    double sg = s.Chance(1, 2) ? 1 : -1;
    p.E[1].row(i).setZero();
    p.E[1](i, j) = sg;
    p.L[1].row(i).setZero();
    p.d[1](i, 0) = -sg * x1 + delta;
  } else {  // two opposing rows
    int k = s.Int(0, N), j = (i + 1) % nc;
    p.E[k].row(j) = -p.E[k].row(i);
    p.L[k].row(j) = -p.L[k].row(i);
    p.d[k](j, 0) = -p.d[k](i, 0) + delta;
  }
  (void)nu;
  return p;
}

Ocp GenOcpUnbounded(Src& s, const OcpOpts& o) {
  OcpOpts oo = o;
  oo.allow_real = false;
  oo.force_strong = false;
  Ocp p = GenAnyOcp(s, oo);
  const int nx = p.nx, nu = p.nu, nc = p.nc, N = p.N;
  const int j = s.Int(0, nu - 1);
  // Integer data everywhere, so that the ray is exact.
  for (int i = 0; i <= N; i++) {
    bool st;
    Mat W = GenPsd(s, nx + nu, true, false, &st);
    p.Q[i] = W.block(0, 0, nx, nx);
    p.S[i] = W.block(nx, 0, nu, nx);
    p.R[i] = W.block(nx, nx, nu, nu);
    p.q[i] = GenVec(s, nx, true);
    p.r[i] = GenVec(s, nu, true);
    p.E[i] = GenMat(s, nc, nx, true, 4);
    p.L[i] = GenMat(s, nc, nu, true, 4);
    if (i < N) {
      p.A[i] = GenMat(s, nx, nx, true, 5);
      p.B[i] = GenMat(s, nx, nu, true, 3);
      p.c[i] = GenVec(s, nx, true);
    }
  }
  p.x0 = GenVec(s, nx, true);
  auto free_control = [&](int k) {
    p.R[k].row(j).setZero();
    p.R[k].col(j).setZero();
    p.S[k].row(j).setZero();
    for (int i = 0; i < nc; i++)
      p.L[k](i, j) = s.Chance(1, 2) ? 0.0 : -double(s.Int(0, 2));
  };
  if (s.Chance(1, 2)) {  // a free control at stage k
    const int k = s.Int(0, N);
    free_control(k);
    if (k < N) p.B[k].col(j).setZero();
    p.r[k](j, 0) = -double(s.Int(1, 3));
  } else {  // a control that drives a free state from stage k + 1 on
    const int k = s.Int(0, N - 1), t = s.Int(0, nx - 1);
    free_control(k);
    p.B[k].col(j).setZero();
    p.B[k](t, j) = 1;
    double slope = p.r[k](j, 0) = double(s.Signed(2));
    for (int i = k + 1; i <= N; i++) {
      p.Q[i].row(t).setZero();
      p.Q[i].col(t).setZero();
      p.S[i].col(t).setZero();
      for (int m = 0; m < nc; m++)
        p.E[i](m, t) = s.Chance(1, 2) ? 0.0 : -double(s.Int(0, 2));
      if (i < N) {
        p.A[i].col(t).setZero();
        p.A[i](t, t) = 1;
      }
      p.q[i](t, 0) = double(s.Signed(2));
      slope += p.q[i](t, 0);
    }
    if (slope >= 0) p.r[k](j, 0) -= slope + s.Int(1, 3);
  }
  // A feasible trajectory.
  Vec x = p.x0;
  for (int i = 0; i <= N; i++) {
    Vec u = GenVec(s, nu, true);
    Vec y(nc);
    for (int m = 0; m < nc; m++) y(m) = s.Int(0, 3);
    p.d[i] = -(p.E[i] * x + p.L[i] * u) - y;
    if (i < N) {
      // Keep the trajectory small by choosing c.
      Vec xn = GenVec(s, nx, true);
      p.c[i] = xn - p.A[i] * x - p.B[i] * u;
      x = xn;
    }
  }
  p.exact = true;
  return p;
}

}  // namespace vf
