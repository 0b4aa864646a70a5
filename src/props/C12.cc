// C12: data operators equal the explicit matrices they stand for.
#include <limits>

#include "comp.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C12";
const char* kRule =
    "Generated dense and optimal control data, a random sequence of operator "
    "calls with random vectors and scalings (0, +-1, general); every result is "
    "compared componentwise with long double arithmetic on the explicit "
    "matrices (assembled independently), with an allowance of 64 ulp of the "
    "sum of magnitudes. When the accumulation factor is zero the output holds "
    "NaN/Inf before. exact: integer data, results must be exactly equal. "
    "Non-trivial: the reference result has a non-zero entry.";
}
static const char* kOps[] = {"gemvH", "gemvG", "gemvA", "gemvGT",
                             "gemvAT", "axpyf", "axpyh", "axpyb"};
static double Scaling(Src& s, bool integer) {
  switch (s.Pick({3, 3, 2, 2, 2, 1})) {
    case 0: return 1;
    case 1: return -1;
    case 2: return 0;
    case 3: return s.Signed(4);
    case 4: return integer ? s.Signed(9) : s.Real(3);
    default: return integer ? 0.5 : s.LogUniform(1e-8, 1e8);
  }
}
static void Ops(Src& s, Case& c, bool integer) {
  Problem p;
  if (integer) {
    GenOpts g = CompSizes(s);
    OcpOpts o = CompOcpSizes(s);
    g.allow_real = o.allow_real = false;
    p = s.Chance(1, 2) ? FromOcp(GenAnyOcp(s, o)) : FromQp(GenAnyQp(s, g));
    // The generators only promise integer constraint data; round everything.
    auto r = [](Mat& m) { m = m.unaryExpr([](double x) { return std::round(x); }); };
    auto rv = [](Vec& m) { m = m.unaryExpr([](double x) { return std::round(x); }); };
    if (p.mpc) {
      Ocp o2 = p.ocp;
      for (auto* v : {&o2.Q, &o2.R, &o2.S, &o2.q, &o2.r, &o2.A, &o2.B, &o2.c,
                      &o2.E, &o2.L, &o2.d})
        for (Mat& m : *v) r(m);
      rv(o2.x0);
      p = FromOcp(o2);
    } else {
      r(p.qp.H); r(p.qp.G); r(p.qp.A);
      rv(p.qp.f); rv(p.qp.h); rv(p.qp.b);
    }
  } else {
    p = GenData(s);
  }
  Bound d(p, s.Chance(1, 2));
  const Qp& q = d.qp();
  p.Describe(c);
  c.Label(p.mpc ? "mpc" : "dense");
  const LMat H = q.H.cast<long double>(), G = q.G.cast<long double>(),
             A = q.A.cast<long double>(), GT = G.transpose(),
             AT = A.transpose();
  const LMat* M[] = {&H, &G, &A, &GT, &AT};
  const Vec* F[] = {&q.f, &q.h, &q.b};
  const int rounds = s.Int(1, 8);
  auto val = [&] { return integer ? double(s.Signed(9)) : GenScalar(s); };
  for (int t = 0; t < rounds; t++) {
    const int op = s.Int(0, 7);
    const double a = Scaling(s, integer);
    double b = Scaling(s, integer);
    const int rows = op < 5 ? int(M[op]->rows()) : int(F[op - 5]->size());
    const int cols = op < 5 ? int(M[op]->cols()) : 0;
    Vec x(cols), y(rows);
    for (int i = 0; i < cols; i++) x(i) = val();
    for (int i = 0; i < rows; i++) y(i) = val();
    // Everything linear: also far below or above one.
    if (!integer && s.Chance(1, 6)) x *= std::ldexp(1.0, s.Signed(120));
    if (!integer && s.Chance(1, 8)) y *= std::ldexp(1.0, s.Signed(120));
    LVec ref, mag;
    if (op < 5) {
      ref = (long double)a * (*M[op] * x.cast<long double>());
      mag = std::abs((long double)a) *
            (M[op]->cwiseAbs() * x.cwiseAbs().cast<long double>());
      if (b != 0) {
        ref += (long double)b * y.cast<long double>();
        mag += std::abs((long double)b) * y.cwiseAbs().cast<long double>();
      } else {
        static const double bad[] = {
            std::numeric_limits<double>::quiet_NaN(),
            std::numeric_limits<double>::infinity(), 1e308, 3};
        for (int i = 0; i < rows; i++) y(i) = bad[s.Below(4)];
        c.Label("b = 0");
      }
    } else {
      ref = y.cast<long double>() +
            (long double)a * F[op - 5]->cast<long double>();
      mag = y.cwiseAbs().cast<long double>() +
            std::abs((long double)a) * F[op - 5]->cwiseAbs().cast<long double>();
    }
    const Vec xk = x;
    c.Note("%s a=%.17g b=%.17g x=%s y=%s", kOps[op], a, b, StrV(x).c_str(),
           StrV(y).c_str());
    switch (op) {
      case 0: d.data->gemvH(x, a, b, &y); break;
      case 1: d.data->gemvG(x, a, b, &y); break;
      case 2: d.data->gemvA(x, a, b, &y); break;
      case 3: d.data->gemvGT(x, a, b, &y); break;
      case 4: d.data->gemvAT(x, a, b, &y); break;
      case 5: d.data->axpyf(a, &y); break;
      case 6: d.data->axpyh(a, &y); break;
      case 7: d.data->axpyb(a, &y); break;
    }
    c.Label(kOps[op]);
    VF_CHECK(SameBits(x, xk), "%s modified its input", kOps[op]);
    VF_CHECK(y.size() == rows, "%s resized its output to %d (was %d)",
             kOps[op], int(y.size()), rows);
    const long double eps = integer ? 0.0L : 64 * 2.2e-16L;
    for (int i = 0; i < rows; i++) {
      const long double e = std::abs((long double)y(i) - ref(i));
      VF_CHECK(e <= eps * mag(i), "%s with a=%g b=%g: entry %d is %.17g, "
               "expected %.17Lg", kOps[op], a, b, i, y(i), ref(i));
      if (ref(i) != 0) c.nontrivial = true;
    }
    VF_CHECK(d.Intact(), "%s modified the problem data", kOps[op]);
  }
  long double n2 = 0;
  for (int k = 0; k < 3; k++)
    n2 += F[k]->cast<long double>().squaredNorm();
  const long double n = std::sqrt(n2);
  VF_CHECK(std::abs((long double)d.data->ForcingNorm() - n) <= 1e-14L * n * 10,
           "ForcingNorm is %.17g, expected %.17Lg", d.data->ForcingNorm(), n);
  if (p.mpc) {
    VF_CHECK(d.mpc->N() == p.ocp.N && d.mpc->nx() == p.ocp.nx &&
                 d.mpc->nu() == p.ocp.nu && d.mpc->nc() == p.ocp.nc,
             "wrong sizes %d %d %d %d", d.mpc->N(), d.mpc->nx(), d.mpc->nu(),
             d.mpc->nc());
  } else {
    VF_CHECK(d.dense->nz() == q.nz && d.dense->nl() == q.nl &&
                 d.dense->nv() == q.nv, "wrong sizes");
  }
}
static void Real(Src& s, Case& c) { Ops(s, c, false); }
static void Exact(Src& s, Case& c) { Ops(s, c, true); }
namespace vf {
std::vector<Property> kProperties = {{"real", Real, 400000, 6000000},
                                     {"exact", Exact, 400000, 6000000}};
}
