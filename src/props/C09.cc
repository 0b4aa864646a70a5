// C09: owning and reference interfaces are equivalent and memory safe.
// RUN: plain
// RUN: asan --scale 0.12
#include <sys/mman.h>

#include <cstring>
#include <memory>

#include "api_impl.h"
#include "common.h"
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C09";
const char* kRule =
    "Problems, guesses and options of every kind are solved through owning "
    "structures and through references to caller memory (an arena with "
    "canaries between the buffers, the data possibly on read-only pages, or "
    "exact heap blocks; aligned or not; "
    "every mixture). Results must be bitwise equal when the memory is equally "
    "aligned (optimal otherwise), land in the given buffers, and leave the "
    "data and the canaries alone; the same runs under AddressSanitizer. "
    "Non-trivial: at least one Newton step.";
}
using fbstab::FBstabDense;
using fbstab::FBstabMpc;
using fbstab::MapMatrixSequence;
using fbstab::MatrixSequence;
using MV = Eigen::Map<Vec>;
using MM = Eigen::Map<Mat>;

// Caller memory. Buffers keep a copy of what was put there.
class Memory {
 public:
  Memory(Src& s, bool aligned, bool arena)
      : s_(s), aligned_(aligned), arena_(arena) {
    if (arena_) {
      // Pages of its own, so that the problem data can be made read-only.
      if (!pages_)
        pages_ = static_cast<double*>(
            mmap(nullptr, kSize * sizeof(double), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      if (pages_ == MAP_FAILED || busy_) abort();
      busy_ = true;
      start_ = pages_;
      for (size_t i = 0; i < kSize; i++) start_[i] = Canary(i);
    }
  }
  ~Memory() {
    if (!arena_) return;
    busy_ = false;
    if (sealed_) Protect(PROT_READ | PROT_WRITE);
  }
  // Everything put so far becomes read-only: a write to it, even one that is
  // undone later, ends the process.
  void Seal() {
    if (!arena_) return;
    pos_ = sealed_ = (pos_ + kPage - 1) / kPage * kPage;
    if (pos_ + kPage > kSize) throw Discard();
    Protect(PROT_READ);
  }
  double* Put(const double* src, size_t n) {
    double* p;
    if (arena_) {
      pos_ += 1 + s_.Below(3);
      if (aligned_) pos_ += pos_ % 2;
      p = start_ + pos_;
      if (pos_ + n + 8 > kSize) throw Discard();
      bufs_.push_back({p, n, pos_});
      pos_ += n;
    } else {
      // Exact heap blocks; misaligned ones start one element in.
      const size_t off = aligned_ ? 0 : s_.Below(2);
      heap_.emplace_back(new double[n + off]);
      p = heap_.back().get() + off;
      bufs_.push_back({p, n, 0});
    }
    for (size_t i = 0; i < n; i++) p[i] = src[i];
    copies_.emplace_back(src, src + n);
    return p;
  }
  template <class M>
  double* Put(const M& m) {
    return Put(m.data(), m.size());
  }
  double* Put(const std::vector<Mat>& m) {
    std::vector<double> all;
    for (auto& x : m) all.insert(all.end(), x.data(), x.data() + x.size());
    return Put(all.data(), all.size());
  }
  // The first k buffers are as they were; nothing between buffers changed.
  void Check(size_t k) const {
    for (size_t b = 0; b < k; b++)
      VF_CHECK(bufs_[b].n == 0 || !memcmp(bufs_[b].p, copies_[b].data(),
                                          bufs_[b].n * sizeof(double)),
               "problem data buffer %zu was modified", b);
    if (!arena_) return;
    size_t i = 0;
    for (size_t b = 0; b <= bufs_.size(); b++) {
      const size_t end = b < bufs_.size() ? bufs_[b].pos : kSize;
      for (; i < end; i++) {
        const double c = Canary(i);
        VF_CHECK(!memcmp(start_ + i, &c, sizeof c),
                 "memory outside the buffers was written (before buffer %zu)",
                 b);
      }
      if (b < bufs_.size()) i = bufs_[b].pos + bufs_[b].n;
    }
  }

 private:
  static constexpr size_t kSize = 1 << 14, kPage = 4096 / sizeof(double);
  void Protect(int prot) {
    if (mprotect(start_, sealed_ * sizeof(double), prot)) abort();
  }
  static double Canary(size_t i) {
    uint64_t u = 0x7ff8dead00000000ull + i;
    double d;
    memcpy(&d, &u, sizeof d);
    return d;
  }
  struct Buf {
    double* p;
    size_t n, pos;
  };
  Src& s_;
  bool aligned_, arena_;
  static double* pages_;
  static bool busy_;
  size_t sealed_ = 0;
  double* start_ = nullptr;
  size_t pos_ = 0;
  std::vector<std::unique_ptr<double[]>> heap_;
  std::vector<Buf> bufs_;
  std::vector<std::vector<double>> copies_;
};
double* Memory::pages_ = nullptr;
bool Memory::busy_ = false;

template <class Solver>
static void Update(Solver* sol, const AlgorithmParameters& op) {
  typename Solver::Options o;
  static_cast<AlgorithmParameters&>(o) = op;
  sol->UpdateOptions(o);
}
static AlgorithmParameters Opts(Src& s, bool mpc) {
  AlgorithmParameters op;
  switch (s.Pick({2, 2, 3})) {
    case 0: op = mpc ? MpcDefaults() : DenseDefaults(); break;
    case 1: op = mpc ? MpcReliable() : DenseReliable(); break;
    default: op = GenOptions(s); break;
  }
  op.display_level = fbstab::Display(s.Int(0, 3));
  op.max_newton_iters = std::min(op.max_newton_iters, 40);
  return op;
}
static void Judge(Case& c, const Qp& q, const AlgorithmParameters& op,
                  const Start& x, const Out& ref, const Out& got, bool aligned,
                  const char* how) {
  NoteOut(c, got);
  if (aligned) {
    VF_CHECK(SameOut(ref, got), "%s: %s\nowning: %s", how, OutStr(got).c_str(),
             OutStr(ref).c_str());
    return;
  }
  // A different alignment may change the order of summation.
  if (got.threw || got.eflag != ExitFlag::SUCCESS) return;
  Kkt k = EvalKkt(q, got.z, got.l, got.v, op.alpha, &got.y);
  VF_CHECK(std::fabs(double(k.pnr) - got.residual) <=
               1e-10 * double(k.scale) * (1 + q.nv + q.nz),
           "%s: reported residual %g, actual %Lg", how, got.residual, k.pnr);
  if (q.strongly_convex && !ref.threw && ref.eflag == ExitFlag::SUCCESS) {
    const double tol =
        (op.abs_tol + op.rel_tol * (1 + q.ForcingNorm()) + got.residual +
         ref.residual) / op.alpha + 1e-9;
    const double m = q.H.selfadjointView<Eigen::Lower>().eigenvalues()(0);
    const double d = (got.z - ref.z).norm();
    const double gap = 1 + d + (got.l - ref.l).norm() + got.v.norm() +
                       ref.v.norm() + got.y.norm() + ref.y.norm();
    VF_CHECK(m * d * d <= 8 * tol * gap, "%s: %s\nowning: %s", how,
             OutStr(got).c_str(), OutStr(ref).c_str());
  }
}
template <class V>
static void Load(V* v, const Start& x) {
  v->z = x.z;
  v->l = x.l;
  v->v = x.v;
  v->y = x.y;
}
static void Dense(Src& s, Case& c) {
  GenOpts g = Sizes(s);
  if (g.max_nz > 20) g = GenOpts();
  Qp q = GenKind(s, Kind(s.Pick({5, 2, 1, 1})), g).qp;
  AlgorithmParameters op = Opts(s, false);
  Start x = RandomStart(s, q);
  const bool aligned = s.Chance(2, 3), arena = s.Chance(2, 3),
             sealed = s.Chance(1, 2);
  q.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  std::string log;
  std::function<void(const char*)> none;
  FBstabDense sol(q.nz, q.nl, q.nv);
  Update(&sol, op);
  FBstabDense::ProblemData d(q.nz, q.nl, q.nv);
  VF_CHECK(d.H.rows() == q.nz && d.H.cols() == q.nz && d.G.rows() == q.nl &&
               d.G.cols() == q.nz && d.A.rows() == q.nv && d.A.cols() == q.nz &&
               d.f.size() == q.nz && d.h.size() == q.nl && d.b.size() == q.nv,
           "ProblemData(nz, nl, nv) has the wrong sizes");
  d.H = q.H; d.G = q.G; d.A = q.A; d.f = q.f; d.h = q.h; d.b = q.b;
  FBstabDense::Variable v(q.nz, q.nl, q.nv);
  VF_CHECK(v.z == Vec::Zero(q.nz) && v.l == Vec::Zero(q.nl) &&
               v.v == Vec::Zero(q.nv) && v.y == Vec::Zero(q.nv),
           "Variable(nz, nl, nv) is not the origin");
  Load(&v, x);
  const double* pz = v.z.data();
  Out ref;
  Call(sol, d, &v, &ref, Recorder(&ref.log, &none));
  VF_CHECK(pz == v.z.data(), "owning variable was reallocated");
  VF_CHECK(d.H == q.H && d.G == q.G && d.A == q.A && d.f == q.f && d.h == q.h &&
               d.b == q.b,
           "owning problem data were modified");
  NoteOut(c, ref);
  c.nontrivial = ref.newton > 0;
  c.Label(ref.threw ? "threw" : FlagName(ref.eflag));
  c.Label(aligned ? "aligned" : "any alignment");
  for (int how = 0; how < 3; how++) {
    Memory mem(s, aligned, arena);
    MM H(mem.Put(q.H), q.nz, q.nz), G(mem.Put(q.G), q.nl, q.nz),
        A(mem.Put(q.A), q.nv, q.nz);
    MV f(mem.Put(q.f), q.nz), h(mem.Put(q.h), q.nl), b(mem.Put(q.b), q.nv);
    if (sealed) mem.Seal();
    MV z(mem.Put(x.z), q.nz), l(mem.Put(x.l), q.nl), vv(mem.Put(x.v), q.nv),
        y(mem.Put(x.y), q.nv);
    Out o;
    Recorder rec(&o.log, &none);
    FBstabDense::ProblemDataRef dr(&H, &f, &G, &h, &A, &b);
    FBstabDense::VariableRef vr(&z, &l, &vv, &y);
    if (s.Chance(1, 6)) {
      vr.fill(1.5);
      VF_CHECK((z.array() == 1.5).all() && (l.array() == 1.5).all() &&
                   (vv.array() == 1.5).all() && (y.array() == 1.5).all(),
               "fill() did not reach the referenced memory");
      mem.Check(6);
      z = x.z; l = x.l; vv = x.v; y = x.y;
    }
    if (how == 0) {
      Call(sol, dr, &vr, &o, rec);
    } else if (how == 1) {
      Load(&v, x);
      Call(sol, dr, &v, &o, rec);
    } else {
      Call(sol, d, &vr, &o, rec);
    }
    mem.Check(6);
    if (how != 1) {
      VF_CHECK(vr.z.data() == z.data() && vr.l.data() == l.data() &&
                   vr.v.data() == vv.data() && vr.y.data() == y.data(),
               "reference moved to other memory");
      VF_CHECK(SameBits(z, o.z) && SameBits(l, o.l) && SameBits(vv, o.v) &&
                   SameBits(y, o.y),
               "the result is not in the caller's memory");
    } else {
      VF_CHECK(SameBits(z, x.z) && SameBits(l, x.l) && SameBits(vv, x.v) &&
                   SameBits(y, x.y),
               "unrelated buffers were written");
    }
    static const char* const kHow[] = {"data and variable by reference",
                                       "data by reference",
                                       "variable by reference"};
    Judge(c, q, op, x, ref, o, aligned, kHow[how]);
  }
}
static MatrixSequence Own(const std::vector<Mat>& m) {
  MatrixSequence s(int(m.size()), int(m[0].rows()), int(m[0].cols()));
  for (size_t i = 0; i < m.size(); i++) s(int(i)) = m[i];
  return s;
}
static void Mpc(Src& s, Case& c) {
  OcpOpts oo = OcpSizes(s);
  if (oo.max_N > 12 || oo.max_nx > 6) oo = OcpOpts();
  Problem p = GenKind(s, Kind(s.Pick({5, 2, 1, 1})), oo);
  const Ocp& q = p.ocp;
  AlgorithmParameters op = Opts(s, true);
  Start x = RandomStart(s, p.qp);
  const bool aligned = s.Chance(2, 3), arena = s.Chance(2, 3),
             sealed = s.Chance(1, 2);
  q.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  std::function<void(const char*)> none;
  // Either constructor.
  std::unique_ptr<FBstabMpc> sol;
  if (s.Chance(1, 2))
    sol.reset(new FBstabMpc(q.N, q.nx, q.nu, q.nc));
  else
    sol.reset(new FBstabMpc(Eigen::Vector4d(q.N, q.nx, q.nu, q.nc)));
  Update(sol.get(), op);
  FBstabMpc::ProblemData d;
  d.Q = Own(q.Q); d.R = Own(q.R); d.S = Own(q.S); d.q = Own(q.q);
  d.r = Own(q.r); d.A = Own(q.A); d.B = Own(q.B); d.c = Own(q.c);
  d.E = Own(q.E); d.L = Own(q.L); d.d = Own(q.d); d.x0 = q.x0;
  FBstabMpc::Variable v =
      s.Chance(1, 2)
          ? FBstabMpc::Variable(q.N, q.nx, q.nu, q.nc)
          : FBstabMpc::Variable(Eigen::Vector4d(q.N, q.nx, q.nu, q.nc));
  VF_CHECK(v.z == Vec::Zero(q.nz()) && v.l == Vec::Zero(q.nl()) &&
               v.v == Vec::Zero(q.nv()) && v.y == Vec::Zero(q.nv()),
           "Variable(N, nx, nu, nc) is not the origin");
  Load(&v, x);
  Out ref;
  Call(*sol, d, &v, &ref, Recorder(&ref.log, &none));
  NoteOut(c, ref);
  c.nontrivial = ref.newton > 0;
  c.Label(ref.threw ? "threw" : FlagName(ref.eflag));
  c.Label(aligned ? "aligned" : "any alignment");
  const FBstabMpc::ProblemData& cd = d;
  auto same = [](const MatrixSequence& a, const std::vector<Mat>& b) {
    for (size_t i = 0; i < b.size(); i++)
      if (a(int(i)) != b[i]) return false;
    return true;
  };
  VF_CHECK(same(cd.Q, q.Q) && same(cd.R, q.R) && same(cd.S, q.S) &&
               same(cd.q, q.q) && same(cd.r, q.r) && same(cd.A, q.A) &&
               same(cd.B, q.B) && same(cd.c, q.c) && same(cd.E, q.E) &&
               same(cd.L, q.L) && same(cd.d, q.d) && cd.x0 == q.x0,
           "owning problem data were modified");
  for (int how = 0; how < 4; how++) {
    Memory mem(s, aligned, arena);
    FBstabMpc::ProblemDataRef dr;
    auto map = [&](const std::vector<Mat>& m) {
      return MapMatrixSequence(mem.Put(m), int(m.size()), int(m[0].rows()),
                               int(m[0].cols()));
    };
    dr.Q = map(q.Q); dr.R = map(q.R); dr.S = map(q.S); dr.q = map(q.q);
    dr.r = map(q.r); dr.A = map(q.A); dr.B = map(q.B); dr.c = map(q.c);
    dr.E = map(q.E); dr.L = map(q.L); dr.d = map(q.d);
    MV x0(mem.Put(q.x0), q.nx);
    dr.SetX0(x0);
    if (sealed) mem.Seal();
    MV z(mem.Put(x.z), x.z.size()), l(mem.Put(x.l), x.l.size()),
        vv(mem.Put(x.v), x.v.size()), y(mem.Put(x.y), x.y.size());
    FBstabMpc::ProblemDataRef dr2(&d.Q, &d.R, &d.S, &d.q, &d.r, &d.A, &d.B,
                                  &d.c, &d.E, &d.L, &d.d, &d.x0);
    FBstabMpc::VariableRef vr(z, l, vv, y);
    Out o;
    Recorder rec(&o.log, &none);
    if (s.Chance(1, 6)) {
      vr.fill(-2.5);
      VF_CHECK((z.array() == -2.5).all() && (l.array() == -2.5).all() &&
                   (vv.array() == -2.5).all() && (y.array() == -2.5).all(),
               "fill() did not reach the referenced memory");
      z = x.z; l = x.l; vv = x.v; y = x.y;
    }
    if (how == 0) {
      Call(*sol, dr, &vr, &o, rec);
    } else if (how == 1) {
      Load(&v, x);
      Call(*sol, dr, &v, &o, rec);
    } else if (how == 2) {
      Call(*sol, d, &vr, &o, rec);
    } else {
      Call(*sol, dr2, &vr, &o, rec);
    }
    mem.Check(12);
    if (how != 1) {
      VF_CHECK(SameBits(z, o.z) && SameBits(l, o.l) && SameBits(vv, o.v) &&
                   SameBits(y, o.y),
               "the result is not in the caller's memory");
    } else {
      VF_CHECK(SameBits(z, x.z) && SameBits(l, x.l) && SameBits(vv, x.v) &&
                   SameBits(y, x.y),
               "unrelated buffers were written");
    }
    static const char* const kHow[] = {
        "data and variable by reference", "data by reference",
        "variable by reference", "references to owning sequences"};
    Judge(c, p.qp, op, x, ref, o, aligned, kHow[how]);
  }
}
namespace vf {
std::vector<Property> kProperties = {{"dense", Dense, 20000, 300000},
                                     {"mpc", Mpc, 15000, 220000}};
}
