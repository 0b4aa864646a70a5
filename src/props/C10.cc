// C10: ill-sized problems and guesses are rejected without side effects.
// RUN: plain
// RUN: asan --scale 0.1
#include <sys/mman.h>
#include <unistd.h>

#include <iostream>
#include <memory>

#include "api_impl.h"
#include "common.h"
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C10";
const char* kRule =
    "Consistent dimensions for a solver are perturbed in up to three places "
    "(off by one, empty, doubled, transposed; or a consistent problem of "
    "another size). The call must throw a runtime_error exactly when the "
    "dimensions do not fit; a rejected call must leave guess, data, output "
    "stream, stdout, stderr and solver as they were (the next solve equals that of a fresh "
    "object, bitwise). Constructors are given sizes around zero. Non-trivial: "
    "a rejected call followed by a compared solve, or an accepted one.";
}
using fbstab::FBstabDense;
using fbstab::FBstabMpc;
using fbstab::MapMatrixSequence;
using fbstab::MatrixSequence;
using MV = Eigen::Map<Vec>;
using MM = Eigen::Map<Mat>;

static int Deviate(Src& s, int n, int lo) {
  switch (s.Pick({4, 4, 1, 1, 1})) {
    case 0: return n + 1;
    case 1: return std::max(lo, n - 1);
    case 2: return lo;
    case 3: return 2 * n;
    default: return s.Int(lo, n + 3);
  }
}
static Mat Fill(Src& s, int r, int c) {
  Mat m(r, c);
  for (int i = 0; i < m.size(); i++) m.data()[i] = s.Signed(3);
  return m;
}
// What is written to the process's own stdout or stderr in the meantime.
class Watch {
 public:
  Watch() {
    if (mem_ < 0) mem_ = memfd_create("watch", MFD_CLOEXEC);
    if (mem_ < 0) return;
    Flush();
    if (ftruncate(mem_, 0) || lseek(mem_, 0, SEEK_SET)) return;
    for (int i = 0; i < 2; i++) {
      old_[i] = dup(i + 1);
      dup2(mem_, i + 1);
    }
  }
  ~Watch() { Stop(); }
  std::string Stop() {
    if (old_[0] < 0) return "";
    Flush();
    for (int i = 0; i < 2; i++) {
      dup2(old_[i], i + 1);
      close(old_[i]);
      old_[i] = -1;
    }
    const off_t n = lseek(mem_, 0, SEEK_END);
    std::string r(n > 0 ? size_t(n) : 0, 0);
    if (n > 0 && pread(mem_, &r[0], r.size(), 0) != n) r = "?";
    return r;
  }

 private:
  static void Flush() {
    fflush(nullptr);
    std::cout.flush();
    std::cerr.flush();
    std::clog.flush();
  }
  static int mem_;
  int old_[2] = {-1, -1};
};
int Watch::mem_ = -1;
template <class Solver>
static void Update(Solver* sol, const AlgorithmParameters& op) {
  typename Solver::Options o;
  static_cast<AlgorithmParameters&>(o) = op;
  sol->UpdateOptions(o);
}
static AlgorithmParameters Opts() {
  AlgorithmParameters op = DenseDefaults();
  op.display_level = fbstab::Display::ITER_DETAILED;
  op.max_newton_iters = 20;
  return op;
}
struct DenseDims {
  int hr, hc, f, gr, gc, h, ar, ac, b, z, l, v, y;
  bool Fits(int nz, int nl, int nv) const {
    return hr == nz && hc == nz && f == nz && gr == nl && gc == nz && h == nl &&
           ar == nv && ac == nz && b == nv && z == nz && l == nl && v == nv &&
           y == nv;
  }
  std::string Str() const {
    char buf[300];
    snprintf(buf, sizeof buf,
             "H %dx%d f %d G %dx%d h %d A %dx%d b %d guess %d %d %d %d", hr, hc,
             f, gr, gc, h, ar, ac, b, z, l, v, y);
    return buf;
  }
};
static DenseDims DimsOf(int nz, int nl, int nv) {
  return {nz, nz, nz, nl, nz, nl, nv, nz, nv, nz, nl, nv, nv};
}
static void Dense(Src& s, Case& c) {
  const int nz = s.Int(1, 5), nl = s.Int(0, 3), nv = s.Int(1, 5);
  FBstabDense sol(nz, nl, nv);
  Update(&sol, Opts());
  const int rounds = s.Int(1, 3);
  std::function<void(const char*)> none;
  for (int r = 0; r < rounds; r++) {
    DenseDims d;
    if (s.Chance(1, 5)) {
      // Consistent, possibly for another size.
      d = DimsOf(s.Chance(1, 2) ? nz : Deviate(s, nz, 1),
                 s.Chance(1, 2) ? nl : Deviate(s, nl, 0),
                 s.Chance(1, 2) ? nv : Deviate(s, nv, 1));
      if (s.Chance(1, 2)) {
        d.z = nz; d.l = nl; d.v = d.y = nv;
      }
    } else {
      d = DimsOf(nz, nl, nv);
      int* f = &d.hr;
      const int k = s.Pick({1, 5, 2, 2});
      for (int t = 0; t < k; t++) {
        int i = s.Int(0, 12);
        f[i] = Deviate(s, f[i], 0);
      }
      if (s.Chance(1, 8)) std::swap(d.gr, d.gc);
      if (s.Chance(1, 8)) std::swap(d.ar, d.ac);
    }
    const bool fits = d.Fits(nz, nl, nv);
    const bool ref = s.Chance(1, 2), vref = s.Chance(1, 2);
    c.Note("solver (%d,%d,%d): %s%s%s", nz, nl, nv, d.Str().c_str(),
           ref ? " data by reference" : "", vref ? " guess by reference" : "");
    FBstabDense::ProblemData p;
    p.H = d.hr == d.hc ? Mat(2 * Mat::Identity(d.hr, d.hc))
                       : Fill(s, d.hr, d.hc);
    p.G = Fill(s, d.gr, d.gc);
    p.A = Fill(s, d.ar, d.ac);
    p.f = Fill(s, d.f, 1);
    p.h = Fill(s, d.h, 1);
    p.b = Fill(s, d.b, 1);
    const FBstabDense::ProblemData keep = p;
    FBstabDense::Variable x(1, 0, 1);
    x.z = Fill(s, d.z, 1);
    x.l = Fill(s, d.l, 1);
    x.v = Fill(s, d.v, 1);
    x.y = Fill(s, d.y, 1);
    const FBstabDense::Variable x0 = x;
    MM H(p.H.data(), d.hr, d.hc), G(p.G.data(), d.gr, d.gc),
        A(p.A.data(), d.ar, d.ac);
    MV f(p.f.data(), d.f), h(p.h.data(), d.h), b(p.b.data(), d.b);
    MV mz(x.z.data(), d.z), ml(x.l.data(), d.l), mv(x.v.data(), d.v),
        my(x.y.data(), d.y);
    FBstabDense::ProblemDataRef pr(&H, &f, &G, &h, &A, &b);
    FBstabDense::VariableRef xr(&mz, &ml, &mv, &my);
    Out o;
    Recorder rec(&o.log, &none);
    Watch watch;
    if (ref && vref) Call(sol, pr, &xr, &o, rec);
    else if (ref) Call(sol, pr, &x, &o, rec);
    else if (vref) Call(sol, p, &xr, &o, rec);
    else Call(sol, p, &x, &o, rec);
    const std::string spilt = watch.Stop();
    VF_CHECK(p.H == keep.H && p.G == keep.G && p.A == keep.A && p.f == keep.f &&
                 p.h == keep.h && p.b == keep.b,
             "problem data were modified");
    c.Label(fits ? "accepted" : "rejected");
    if (fits) {
      VF_CHECK(!o.threw, "consistent dimensions rejected: %s", o.what.c_str());
      c.nontrivial = true;
      continue;
    }
    VF_CHECK(o.threw, "solver (%d,%d,%d) accepted: %s", nz, nl, nv,
             d.Str().c_str());
    VF_CHECK(o.runtime_error, "not a runtime_error: %s", o.what.c_str());
    VF_CHECK(SameBits(x.z, x0.z) && SameBits(x.l, x0.l) &&
                 SameBits(x.v, x0.v) && SameBits(x.y, x0.y),
             "the guess was modified by a rejected call");
    VF_CHECK(o.log.empty(), "output was printed by a rejected call: %s",
             o.log.c_str());
    VF_CHECK(spilt.empty(), "a rejected call wrote to stdout or stderr: %s",
             spilt.c_str());
  }
  // The object is as good as new.
  GenOpts g;
  g.fixed = true;
  g.max_nz = nz;
  g.max_nl = nl;
  g.max_nv = nv;
  Qp q = GenSolvable(s, g);
  auto fresh = MakeDense(nz, nl, nv);
  fresh->SetProblem(q);
  fresh->Update(Opts());
  Start x = RandomStart(s, q);
  Out want = fresh->Solve(x), got;
  FBstabDense::ProblemData p;
  p.H = q.H; p.G = q.G; p.A = q.A; p.f = q.f; p.h = q.h; p.b = q.b;
  FBstabDense::Variable v(1, 0, 1);
  v.z = x.z; v.l = x.l; v.v = x.v; v.y = x.y;
  Call(sol, p, &v, &got, Recorder(&got.log, &none));
  VF_CHECK(SameOut(want, got), "after rejected calls: %s\nfresh object: %s",
           OutStr(got).c_str(), OutStr(want).c_str());
  if (want.newton > 0) c.nontrivial = true;
}
struct SeqDims {
  int len, rows, cols;
};
static const char kSeqNames[] = "QRSqrABcELd";
static MatrixSequence Make(Src& s, SeqDims d) {
  MatrixSequence m(d.len, d.rows, d.cols);
  for (int k = 0; k < d.len; k++) m(k) = Fill(s, d.rows, d.cols);
  return m;
}
static void Mpc(Src& s, Case& c) {
  const int N = s.Int(1, 3), nx = s.Int(1, 4), nu = s.Int(1, 4),
            nc = s.Int(1, 4);
  FBstabMpc sol(N, nx, nu, nc);
  Update(&sol, Opts());
  const int rounds = s.Int(1, 3);
  std::function<void(const char*)> none;
  auto good = [](int N, int nx, int nu, int nc) {
    return std::vector<SeqDims>{
        {N + 1, nx, nx}, {N + 1, nu, nu}, {N + 1, nu, nx}, {N + 1, nx, 1},
        {N + 1, nu, 1},  {N, nx, nx},     {N, nx, nu},     {N, nx, 1},
        {N + 1, nc, nx}, {N + 1, nc, nu}, {N + 1, nc, 1}};
  };
  for (int r = 0; r < rounds; r++) {
    int M = N, mx = nx, mu = nu, mc = nc;
    int x0n, g[4];
    const bool other = s.Chance(1, 5);
    if (other) {
      if (s.Chance(1, 2)) M = Deviate(s, N, 1);
      if (s.Chance(1, 2)) mx = Deviate(s, nx, 1);
      if (s.Chance(1, 2)) mu = Deviate(s, nu, 1);
      if (s.Chance(1, 2)) mc = Deviate(s, nc, 1);
    }
    std::vector<SeqDims> d = good(M, mx, mu, mc);
    x0n = mx;
    const bool own = s.Chance(1, 2);
    const int GN = own ? N : M, gx = own ? nx : mx, gu = own ? nu : mu,
              gc = own ? nc : mc;
    g[0] = (GN + 1) * (gx + gu);
    g[1] = (GN + 1) * gx;
    g[2] = g[3] = (GN + 1) * gc;
    if (!other) {
      const int k = s.Pick({1, 6, 2, 2});
      for (int t = 0; t < k; t++) {
        int i = s.Int(0, 13);
        if (i < 11) {
          switch (s.Int(0, 3)) {
            case 0: d[i].len = Deviate(s, d[i].len, 0); break;
            case 1: d[i].rows = Deviate(s, d[i].rows, 1); break;
            case 2: d[i].cols = Deviate(s, d[i].cols, 1); break;
            case 3: std::swap(d[i].rows, d[i].cols); break;
          }
        } else if (i == 11) {
          x0n = Deviate(s, x0n, 0);
        } else {
          int j = s.Int(0, 3);
          g[j] = Deviate(s, g[j], 0);
        }
      }
    }
    std::vector<SeqDims> want = good(N, nx, nu, nc);
    bool fits = x0n == nx && g[0] == (N + 1) * (nx + nu) &&
                g[1] == (N + 1) * nx && g[2] == (N + 1) * nc &&
                g[3] == (N + 1) * nc;
    std::string str;
    for (int i = 0; i < 11; i++) {
      fits = fits && d[i].len == want[i].len && d[i].rows == want[i].rows &&
             d[i].cols == want[i].cols;
      char buf[60];
      snprintf(buf, sizeof buf, "%c %d*%dx%d ", kSeqNames[i], d[i].len,
               d[i].rows, d[i].cols);
      str += buf;
    }
    const bool ref = s.Chance(1, 2), vref = s.Chance(1, 2);
    char buf[200];
    snprintf(buf, sizeof buf, "x0 %d guess %d %d %d %d%s%s", x0n, g[0], g[1],
             g[2], g[3], ref ? " data by reference" : "",
             vref ? " guess by reference" : "");
    str += buf;
    c.Note("solver (%d,%d,%d,%d): %s", N, nx, nu, nc, str.c_str());
    std::vector<MatrixSequence> q;
    for (int i = 0; i < 11; i++) q.push_back(Make(s, d[i]));
    if (d[0].rows == d[0].cols)
      for (int k = 0; k < d[0].len; k++)
        q[0](k) = 2 * Mat::Identity(d[0].rows, d[0].cols);
    if (d[1].rows == d[1].cols)
      for (int k = 0; k < d[1].len; k++)
        q[1](k) = 2 * Mat::Identity(d[1].rows, d[1].cols);
    if (fits)
      for (int k = 0; k < d[2].len; k++) q[2](k).setZero();
    FBstabMpc::ProblemData p;
    MatrixSequence* dst[] = {&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A,
                             &p.B, &p.c, &p.E, &p.L, &p.d};
    for (int i = 0; i < 11; i++) *dst[i] = q[i];
    p.x0 = Fill(s, x0n, 1);
    const Vec x0keep = p.x0;
    FBstabMpc::Variable x(1, 1, 1, 1);
    x.z = Fill(s, g[0], 1);
    x.l = Fill(s, g[1], 1);
    x.v = Fill(s, g[2], 1);
    x.y = Fill(s, g[3], 1);
    const FBstabMpc::Variable xk = x;
    Out o;
    Recorder rec(&o.log, &none);
    MV mz(x.z.data(), g[0]), ml(x.l.data(), g[1]), mv(x.v.data(), g[2]),
        my(x.y.data(), g[3]);
    FBstabMpc::VariableRef xr(mz, ml, mv, my);
    FBstabMpc::ProblemDataRef pr(&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A, &p.B,
                                 &p.c, &p.E, &p.L, &p.d, &p.x0);
    Watch watch;
    if (ref && vref) Call(sol, pr, &xr, &o, rec);
    else if (ref) Call(sol, pr, &x, &o, rec);
    else if (vref) Call(sol, p, &xr, &o, rec);
    else Call(sol, p, &x, &o, rec);
    const std::string spilt = watch.Stop();
    for (int i = 0; i < 11; i++)
      for (int k = 0; k < d[i].len; k++)
        VF_CHECK((*dst[i])(k) == q[i](k), "sequence %c was modified",
                 kSeqNames[i]);
    VF_CHECK(SameBits(p.x0, x0keep), "x0 was modified");
    c.Label(fits ? "accepted" : "rejected");
    if (fits) {
      VF_CHECK(!o.threw, "consistent dimensions rejected: %s", o.what.c_str());
      c.nontrivial = true;
      continue;
    }
    VF_CHECK(o.threw, "solver (%d,%d,%d,%d) accepted: %s", N, nx, nu, nc,
             str.c_str());
    VF_CHECK(o.runtime_error, "not a runtime_error: %s", o.what.c_str());
    VF_CHECK(SameBits(x.z, xk.z) && SameBits(x.l, xk.l) &&
                 SameBits(x.v, xk.v) && SameBits(x.y, xk.y),
             "the guess was modified by a rejected call");
    VF_CHECK(o.log.empty(), "output was printed by a rejected call: %s",
             o.log.c_str());
    VF_CHECK(spilt.empty(), "a rejected call wrote to stdout or stderr: %s",
             spilt.c_str());
  }
  OcpOpts oo;
  oo.fixed = true;
  oo.max_N = N;
  oo.max_nx = nx;
  oo.max_nu = nu;
  oo.max_nc = nc;
  Problem q = FromOcp(GenOcp(s, oo));
  auto fresh = MakeSolver(q);
  fresh->Update(Opts());
  Start x = RandomStart(s, q.qp);
  Out want = fresh->Solve(x), got;
  FBstabMpc::ProblemData p;
  auto seq = [](const std::vector<Mat>& m) {
    MatrixSequence r(int(m.size()), int(m[0].rows()), int(m[0].cols()));
    for (size_t i = 0; i < m.size(); i++) r(int(i)) = m[i];
    return r;
  };
  p.Q = seq(q.ocp.Q); p.R = seq(q.ocp.R); p.S = seq(q.ocp.S);
  p.q = seq(q.ocp.q); p.r = seq(q.ocp.r); p.A = seq(q.ocp.A);
  p.B = seq(q.ocp.B); p.c = seq(q.ocp.c); p.E = seq(q.ocp.E);
  p.L = seq(q.ocp.L); p.d = seq(q.ocp.d); p.x0 = q.ocp.x0;
  FBstabMpc::Variable v(1, 1, 1, 1);
  v.z = x.z; v.l = x.l; v.v = x.v; v.y = x.y;
  Call(sol, p, &v, &got, Recorder(&got.log, &none));
  VF_CHECK(SameOut(want, got), "after rejected calls: %s\nfresh object: %s",
           OutStr(got).c_str(), OutStr(want).c_str());
  if (want.newton > 0) c.nontrivial = true;
}
template <class F>
static std::string Throws(F f) {
  try {
    f();
    return "";
  } catch (const std::runtime_error& e) {
    return "runtime_error";
  } catch (const std::exception& e) {
    return std::string("another exception: ") + e.what();
  }
}
static void Constructors(Src& s, Case& c) {
  int k[4];
  for (int& x : k) x = s.Chance(1, 5) ? -s.Int(1, 1000000) : s.Int(-2, 4);
  c.Note("sizes %d %d %d %d", k[0], k[1], k[2], k[3]);
  c.nontrivial = true;
  const bool dok = k[0] > 0 && k[1] >= 0 && k[2] > 0;
  const bool mok = k[0] > 0 && k[1] > 0 && k[2] > 0 && k[3] > 0;
  std::string r = Throws([&] { FBstabDense x(k[0], k[1], k[2]); });
  VF_CHECK(r == (dok ? "" : "runtime_error"), "FBstabDense(%d,%d,%d): %s", k[0],
           k[1], k[2], r.empty() ? "accepted" : r.c_str());
  r = Throws([&] { FBstabMpc x(k[0], k[1], k[2], k[3]); });
  VF_CHECK(r == (mok ? "" : "runtime_error"), "FBstabMpc(%d,%d,%d,%d): %s",
           k[0], k[1], k[2], k[3], r.empty() ? "accepted" : r.c_str());
  r = Throws([&] {
    FBstabMpc x(Eigen::Vector4d(k[0], k[1], k[2], k[3]));
  });
  VF_CHECK(r == (mok ? "" : "runtime_error"),
           "FBstabMpc(Vector4d(%d,%d,%d,%d)): %s", k[0], k[1], k[2], k[3],
           r.empty() ? "accepted" : r.c_str());
  c.Label(dok ? "dense accepted" : "dense rejected");
  c.Label(mok ? "mpc accepted" : "mpc rejected");
}
namespace vf {
std::vector<Property> kProperties = {{"dense", Dense, 80000, 1500000},
                                     {"mpc", Mpc, 60000, 1000000},
                                     {"constructors", Constructors, 20000,
                                      200000}};
}
