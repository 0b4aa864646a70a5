// C18: what is printed at each display level describes the solve, goes to the
// supplied stream only, and never influences it.
#include <sys/mman.h>
#include <unistd.h>

#include <iostream>
#include <sstream>

#include "comp.h"
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
using namespace vf;
using fbstab::Display;
namespace vf {
const char* kPropertyId = "C18";
const char* kRule =
    "The same problem is solved at every display level, in any order, by one "
    "solver. The text is parsed completely and compared with the returned "
    "summary, with the recurrences it must satisfy, with the other levels, and "
    "with recomputed residuals. Non-trivial: at least one outer iteration.";
}
namespace {
bool Close(double a, double b, double rel, double abs = 0) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs;
}
// Printed with five significant digits.
bool Shown(double printed, double value) {
  return Close(printed, value, 1.1e-4);
}
struct Row {
  int prox, newton;
  double rz, rl, rv, inner, tol;
  double norm() const { return std::sqrt(rz * rz + rl * rl + rv * rv); }
};
struct Line {
  int iter;
  double step, rz, rl, rv;
  double norm() const { return std::sqrt(rz * rz + rl * rl + rv * rv); }
};
struct Block {
  int prox, newton;
  double residual;
  std::vector<Line> lines;
  bool footer = false;
  double inner = 0, tol = 0;
};
struct Log {
  bool iter_header = false, summary = false;
  std::vector<Row> rows;
  std::vector<Block> blocks;
  std::string verdict;
  double ms = 0, rz = 0, rl = 0, rv = 0, tol = 0;
  int prox = 0, max_prox = 0, newton = 0, max_newton = 0;
  double norm() const { return std::sqrt(rz * rz + rl * rl + rv * rv); }
};
std::vector<std::string> Words(const std::string& l) {
  std::istringstream in(l);
  std::vector<std::string> w;
  std::string t;
  while (in >> t) w.push_back(t);
  return w;
}
bool Num(const std::string& w, double* d) {
  char* e = nullptr;
  *d = std::strtod(w.c_str(), &e);
  return e != w.c_str() && *e == 0;
}
bool Int(const std::string& w, int* d) {
  char* e = nullptr;
  long v = std::strtol(w.c_str(), &e, 10);
  *d = int(v);
  return e != w.c_str() && *e == 0;
}
double N(const std::string& w) {
  double d;
  VF_CHECK(Num(w, &d), "'%s' is not a number", w.c_str());
  return d;
}
int I(const std::string& w) {
  int d;
  VF_CHECK(Int(w, &d), "'%s' is not an integer", w.c_str());
  return d;
}
std::string Join(const std::vector<std::string>& w) {
  std::string s;
  for (auto& x : w) s += (s.empty() ? "" : " ") + x;
  return s;
}
// Parses everything; any text that is not part of the format is an error.
Log Parse(const std::string& text) {
  Log g;
  VF_CHECK(text.empty() || text.back() == '\n', "output ends inside a line");
  std::istringstream in(text);
  std::string line;
  std::vector<std::vector<std::string>> L;
  while (std::getline(in, line)) {
    std::vector<std::string> w = Words(line);
    if (!w.empty()) L.push_back(w);
  }
  bool final_norms = false;
  for (size_t k = 0; k < L.size(); k++) {
    const auto& w = L[k];
    const std::string j = Join(w);
    int d;
    if (j == "prox iter newton iters |rz| |rl| |rv| Inner res Inner tol") {
      VF_CHECK(k == 0, "header in the middle");
      g.iter_header = true;
    } else if (j.compare(0, 16, "Begin Prox Iter:") == 0) {
      int p, n;
      char r[64];
      VF_CHECK(sscanf(j.c_str(),
                      "Begin Prox Iter: %d, Total Newton Iters: %d, Residual: "
                      "%63s",
                      &p, &n, r) == 3,
               "bad line '%s'", j.c_str());
      Block b;
      b.prox = p;
      b.newton = n;
      b.residual = N(r);
      g.blocks.push_back(b);
      k++;
      VF_CHECK(k < L.size() && Join(L[k]) == "Iter Step Size |rz| |rl| |rv|",
               "column header missing");
    } else if (w.size() == 7 && Int(w[0], &d)) {
      g.rows.push_back(
          {d, I(w[1]), N(w[2]), N(w[3]), N(w[4]), N(w[5]), N(w[6])});
      VF_CHECK(!g.summary && g.iter_header, "row out of place");
    } else if (w.size() == 5 && Int(w[0], &d)) {
      VF_CHECK(!g.blocks.empty() && !g.summary && !g.blocks.back().footer,
               "detail line out of place");
      g.blocks.back().lines.push_back(
          {d, N(w[1]), N(w[2]), N(w[3]), N(w[4])});
    } else if (j.compare(0, 19, "Exiting inner loop.") == 0) {
      char a[64], b[64];
      VF_CHECK(sscanf(j.c_str(),
                      "Exiting inner loop. Inner residual: %63[^,], Inner "
                      "tolerance: %63s",
                      a, b) == 2,
               "bad line '%s'", j.c_str());
      VF_CHECK(!g.blocks.empty() && !g.blocks.back().footer && !g.summary,
               "footer out of place");
      g.blocks.back().footer = true;
      g.blocks.back().inner = N(a);
      g.blocks.back().tol = N(b);
    } else if (j.compare(0, 23, "Optimization completed!") == 0) {
      VF_CHECK(!g.summary, "two summaries");
      g.summary = true;
      const size_t c = j.find("Exit code:");
      VF_CHECK(c != std::string::npos, "no exit code");
      g.verdict = Join(Words(j.substr(c + 10)));
    } else if (g.summary && j.compare(0, 13, "Time elapsed:") == 0) {
      VF_CHECK(w.size() > 3 && w[3] == "ms" &&
                   j.find("(-1.0 indicates timing disabled)") !=
                       std::string::npos,
               "bad line '%s'", j.c_str());
      g.ms = N(w[2]);
    } else if (g.summary && j.compare(0, 20, "Proximal iterations:") == 0) {
      VF_CHECK(sscanf(j.c_str(), "Proximal iterations: %d out of %d", &g.prox,
                      &g.max_prox) == 2,
               "bad line '%s'", j.c_str());
    } else if (g.summary && j.compare(0, 18, "Newton iterations:") == 0) {
      VF_CHECK(sscanf(j.c_str(), "Newton iterations: %d out of %d", &g.newton,
                      &g.max_newton) == 2,
               "bad line '%s'", j.c_str());
    } else if (g.summary && j == "|rz| |rl| |rv| Tolerance") {
      k++;
      VF_CHECK(k < L.size() && L[k].size() == 4, "norms missing");
      g.rz = N(L[k][0]);
      g.rl = N(L[k][1]);
      g.rv = N(L[k][2]);
      g.tol = N(L[k][3]);
      final_norms = true;
      VF_CHECK(k + 1 == L.size(), "text after the summary");
    } else {
      Fail("unexpected line '%s'", j.c_str());
    }
  }
  VF_CHECK(g.summary == final_norms, "incomplete summary");
  return g;
}
const char* Verdict(ExitFlag e) {
  switch (e) {
    case ExitFlag::SUCCESS: return "Success";
    case ExitFlag::DIVERGENCE: return "Divergence";
    case ExitFlag::MAXITERATIONS: return "Iteration limit exceeded";
    case ExitFlag::PRIMAL_INFEASIBLE: return "Primal Infeasibility";
    case ExitFlag::DUAL_INFEASIBLE: return "Dual Infeasibility";
    default: return "Primal-Dual Infeasibility";
  }
}
// sqrt of a sum of squares stays meaningful in this range only.
bool Plain(double x) {
  x = std::fabs(x);
  return x == 0 || (x > 1e-140 && x < 1e140);
}
bool PlainRow(double a, double b, double c) {
  return Plain(a) && Plain(b) && Plain(c);
}
bool Norms(double a, double b, double c, double total) {
  if (!PlainRow(a, b, c) || !Plain(total)) return true;
  return Shown(std::sqrt(a * a + b * b + c * c), total);
}
double Sat(double x, double lo, double hi) {
  return std::min(std::max(x, lo), hi);
}
void Summary(const Log& g, const Out& o, const AlgorithmParameters& op,
             const Problem& p) {
  VF_CHECK(g.summary == !o.threw, "%s",
           o.threw ? "summary after a failure" : "no summary");
  if (o.threw) return;
  VF_CHECK(g.verdict == Verdict(o.eflag), "verdict '%s' for %s",
           g.verdict.c_str(), FlagName(o.eflag));
  VF_CHECK(g.prox == o.prox && g.max_prox == op.max_prox_iters,
           "printed %d out of %d outer iterations; %d and %d", g.prox,
           g.max_prox, o.prox, op.max_prox_iters);
  VF_CHECK(g.newton == o.newton && g.max_newton == op.max_newton_iters,
           "printed %d out of %d Newton iterations; %d and %d", g.newton,
           g.max_newton, o.newton, op.max_newton_iters);
  VF_CHECK(Close(g.ms, 1000 * o.time, 1e-6, 2e-6),
           "printed %g ms, the summary has %.9g s", g.ms, o.time);
  VF_CHECK(Norms(g.rz, g.rl, g.rv, o.residual),
           "norms %g %g %g, residual %.9g", g.rz, g.rl, g.rv, o.residual);
  const double combo = op.abs_tol + op.rel_tol * (1 + p.qp.ForcingNorm());
  if (Plain(combo))
    VF_CHECK(Shown(g.tol, combo), "printed tolerance %g, used %.9g", g.tol,
             combo);
}
// Block norms of a known point.
void PointNorms(const char* what, double rz, double rl, double rv,
                const Problem& p, const Vec& z, const Vec& l, const Vec& v,
                const Vec* y, double alpha) {
  Kkt k = EvalKkt(p.qp, z, l, v, alpha, y);
  const double slack = 1e-11 * double(k.scale) * (1 + p.qp.nv + p.qp.nz);
  VF_CHECK(Close(rz, double(k.rz_norm), 2e-4, slack),
           "%s: printed |rz| = %g, of the point %.9Lg", what, rz, k.rz_norm);
  VF_CHECK(Close(rl, double(k.rl_norm), 2e-4, slack),
           "%s: printed |rl| = %g, of the point %.9Lg", what, rl, k.rl_norm);
  VF_CHECK(Close(rv, double(k.rv.norm()), 2e-4, slack),
           "%s: printed |rv| = %g, of the point %.9Lg", what, rv, k.rv.norm());
}
int RowCount(const Out& o, const AlgorithmParameters& op) {
  if (o.eflag == ExitFlag::MAXITERATIONS && o.newton < op.max_newton_iters)
    return o.prox;
  return o.prox + 1;
}
void Iter(const Log& g, const Out& o, const AlgorithmParameters& op,
          const Problem& p, const Start& x, bool extreme) {
  VF_CHECK(g.iter_header && g.blocks.empty(), "%s",
           g.iter_header ? "details at the iteration level" : "no header");
  if (!o.threw)
    VF_CHECK(int(g.rows.size()) == RowCount(o, op), "%zu rows, %d expected",
             g.rows.size(), RowCount(o, op));
  if (g.rows.empty()) return;
  for (size_t k = 0; k < g.rows.size(); k++) {
    const Row& r = g.rows[k];
    VF_CHECK(r.prox == int(k), "row %zu is labelled %d", k, r.prox);
    VF_CHECK(k == 0 ? r.newton == 0 : r.newton >= g.rows[k - 1].newton,
             "Newton count %d in row %zu", r.newton, k);
    if (k == 0) {
      if (!o.threw)
        VF_CHECK(Norms(r.rz, r.rl, r.rv, o.initial_residual),
                 "first row has norms %g %g %g, initial residual %.9g", r.rz,
                 r.rl, r.rv, o.initial_residual);
      VF_CHECK(r.inner == 0, "inner residual %g before the first subproblem",
               r.inner);
      if (!o.threw && Plain(o.initial_residual))
        VF_CHECK(Shown(r.tol, Sat(o.initial_residual, op.inner_tol_min,
                                  op.inner_tol_max)),
                 "first inner tolerance %g, initial residual %.9g", r.tol,
                 o.initial_residual);
    } else {
      const Row& q = g.rows[k - 1];
      if (PlainRow(q.rz, q.rl, q.rv)) {
        const double want = Sat(q.tol * op.delta, op.inner_tol_min,
                                std::max(q.norm(), op.inner_tol_min));
        VF_CHECK(Close(r.tol, want, 3e-4),
                 "inner tolerance %g in row %zu, %g expected", r.tol, k, want);
      }
    }
  }
  const Row& last = g.rows.back();
  if (!extreme)
    PointNorms("first row", g.rows[0].rz, g.rows[0].rl, g.rows[0].rv, p, x.z,
               x.l, x.v, nullptr, op.alpha);
  if (!o.threw && o.eflag == ExitFlag::SUCCESS) {
    VF_CHECK(last.newton == o.newton, "last row has %d Newton iterations",
             last.newton);
    VF_CHECK(last.rz == g.rz && last.rl == g.rl && last.rv == g.rv,
             "last row %g %g %g and summary %g %g %g", last.rz, last.rl,
             last.rv, g.rz, g.rl, g.rv);
  }
}
void Detailed(const Log& g, const Log& it, const Out& o,
              const AlgorithmParameters& op) {
  VF_CHECK(!g.iter_header && g.rows.empty(), "rows at the detailed level");
  const int want = o.threw ? int(it.rows.size())
                   : o.eflag == ExitFlag::SUCCESS ? o.prox
                                                  : RowCount(o, op);
  VF_CHECK(int(g.blocks.size()) == want, "%zu blocks, %d expected",
           g.blocks.size(), want);
  for (size_t k = 0; k < g.blocks.size(); k++) {
    const Block& b = g.blocks[k];
    const Row& r = it.rows[k];
    VF_CHECK(b.prox == r.prox && b.newton == r.newton,
             "block %zu labelled %d, %d", k, b.prox, b.newton);
    VF_CHECK(Norms(r.rz, r.rl, r.rv, b.residual),
             "block %zu has residual %g, row %g %g %g", k, b.residual, r.rz,
             r.rl, r.rv);
    const bool last_block = k + 1 == g.blocks.size();
    const int next = k + 1 < it.rows.size() ? it.rows[k + 1].newton
                     : o.threw              ? -1
                                            : o.newton;
    const int n = int(b.lines.size());
    VF_CHECK(n >= 1, "block %zu is empty", k);
    if (next >= 0) {
      const int steps = next - b.newton;
      const bool limit = last_block && !o.threw &&
                         o.newton >= op.max_newton_iters;
      if (b.footer || (limit && steps < op.max_inner_iters))
        VF_CHECK(n == steps + 1, "block %zu: %d lines for %d Newton steps", k,
                 n, steps);
      else
        VF_CHECK(n == steps && steps == op.max_inner_iters,
                 "block %zu without convergence: %d lines, %d steps", k, n,
                 steps);
    }
    for (int i = 0; i < n; i++) {
      const Line& l = b.lines[i];
      VF_CHECK(l.iter == i, "line %d labelled %d", i, l.iter);
      if (i == 0) {
        VF_CHECK(l.step == 1, "step %g before the first step", l.step);
        if (PlainRow(r.rz, r.rl, r.rv) && PlainRow(l.rz, l.rl, l.rv)) {
          VF_CHECK(Close(l.rz, r.rz, 2e-4, 1e-300) &&
                       Close(l.rl, r.rl, 2e-4, 1e-300),
                   "block %zu starts with |rz| = %g, |rl| = %g; the row has "
                   "%g, %g",
                   k, l.rz, l.rl, r.rz, r.rl);
        }
      } else {
        const double j = std::log(l.step) / std::log(op.beta);
        VF_CHECK(l.step > 0 && l.step <= 1 &&
                     std::fabs(j - std::round(j)) < 1e-4 * (1 + j) &&
                     std::round(j) <= op.max_linesearch_iters,
                 "step %g is not a permitted power of %g", l.step, op.beta);
      }
    }
    if (b.footer) {
      const Line& e = b.lines.back();
      VF_CHECK(Norms(e.rz, e.rl, e.rv, b.inner),
               "footer residual %g after a line with %g", b.inner, e.norm());
      VF_CHECK(b.inner <= b.tol * 1.0002 ||
                   b.inner <= op.inner_tol_min * 1.0002,
               "inner loop left with residual %g, tolerance %g", b.inner,
               b.tol);
    }
    if (k + 1 < it.rows.size()) {
      if (b.footer) {
        VF_CHECK(b.inner == it.rows[k + 1].inner,
                 "footer residual %g, next row %g", b.inner,
                 it.rows[k + 1].inner);
        VF_CHECK(b.tol == it.rows[k + 1].tol,
                 "footer tolerance %g, next row %g", b.tol,
                 it.rows[k + 1].tol);
      }
    }
  }
}
void ScaleAll(Problem* p, Start* x, double f) {
  Qp& q = p->qp;
  if (p->mpc) {
    Ocp& o = p->ocp;
    for (auto* m : {&o.q, &o.r, &o.c, &o.d})
      for (auto& e : *m) e *= f;
    o.x0 *= f;
    q = o.Dense();
  } else {
    q.f *= f;
    q.h *= f;
    q.b *= f;
  }
  x->z *= f;
  x->l *= f;
  x->v *= f;
}
void Levels(Src& s, Case& c) {
  Mixed m = GenMixed(s, {5, 2, 2, 2}, 3);
  Problem& p = m.p;
  AlgorithmParameters op = s.Chance(1, 4)   ? Defaults(p)
                           : s.Chance(1, 3) ? Reliable(p)
                                            : GenOptions(s);
  if (s.Chance(1, 4)) op.max_newton_iters = s.Int(1, 15);
  if (s.Chance(1, 4)) op.max_prox_iters = s.Int(1, 5);
  Start x = RandomStart(s, p.qp);
  bool extreme = s.Chance(1, 6);
  if (extreme) {
    ScaleAll(&p, &x, std::pow(10.0, s.Int(-200, 200)));
    if (s.Chance(1, 3)) {
      op.abs_tol = std::pow(10.0, s.Int(-14, 300));
      op.rel_tol = std::pow(10.0, s.Int(-300, 300));
    }
    if (s.Chance(1, 4)) op.max_newton_iters = 2147483647;
    if (s.Chance(1, 4)) op.max_linesearch_iters = 200;
    c.Label("extreme magnitudes");
  }
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  auto sol = MakeSolver(p);
  // In any order, on one solver.
  int order[4] = {0, 1, 2, 3};
  for (int i = 0; i < 3; i++) std::swap(order[i], order[i + s.Below(4 - i)]);
  Out o[4];
  for (int i = 0; i < 4; i++) {
    op.display_level = Display(order[i]);
    sol->Update(op);
    o[order[i]] = sol->Solve(x, Iface(s.Below(4)));
  }
  NoteOut(c, o[0]);
  for (int i = 1; i < 4; i++)
    if (c.verbose) c.Note("level %d:\n%s", i, o[i].log.c_str());
  c.Label(o[0].threw ? "threw" : FlagName(o[0].eflag));
  c.nontrivial = o[0].threw || o[0].newton > 0;
  VF_CHECK(o[0].log.empty(), "output although display is off: %s",
           o[0].log.c_str());
  for (int i = 1; i < 4; i++)
    VF_CHECK(SameOut(o[0], o[i]), "display level %d changes the result\n%s", i,
             OutStr(o[i]).c_str());
  Log f = Parse(o[1].log), it = Parse(o[2].log), de = Parse(o[3].log);
  VF_CHECK(!f.iter_header && f.rows.empty() && f.blocks.empty(),
           "more than the summary at the final level");
  Summary(f, o[1], op, p);
  Summary(it, o[2], op, p);
  Summary(de, o[3], op, p);
  if (!o[0].threw)
    for (const Log* g : {&it, &de})
      VF_CHECK(Shown(g->rz, f.rz) && Shown(g->rl, f.rl) && Shown(g->rv, f.rv),
               "the summaries differ between display levels");
  Iter(it, o[2], op, p, x, extreme);
  Detailed(de, it, o[3], op);
  if (!o[0].threw && !extreme && !Infeasible(o[0].eflag))
    PointNorms("summary", f.rz, f.rl, f.rv, p, o[0].z, o[0].l, o[0].v,
               &o[0].y, op.alpha);
  // The rows describe the outer iterates.
  if (extreme || o[0].threw || it.rows.size() < 2) return;
  const int k = s.Int(1, std::min(int(it.rows.size()) - 1, 6));
  op.display_level = Display(s.Below(4));
  op.max_prox_iters = k;
  sol->Update(op);
  Out b = sol->Solve(x);
  VF_CHECK(!b.threw && b.prox == k, "limited to %d: %s", k, OutStr(b).c_str());
  const Row& r = it.rows[k];
  PointNorms("row", r.rz, r.rl, r.rv, p, b.z, b.l, b.v, &b.y, op.alpha);
}
// ---- where the text goes
// Everything written to the file descriptors 1 and 2 while f runs.
template <class F>
std::string Captured(F f) {
  fflush(stdout);
  fflush(stderr);
  std::cout.flush();
  const int fd = memfd_create("vf", 0);
  const int keep1 = dup(1), keep2 = dup(2);
  if (fd < 0 || keep1 < 0 || keep2 < 0) abort();
  dup2(fd, 1);
  dup2(fd, 2);
  auto restore = [&]() {
    fflush(stdout);
    fflush(stderr);
    std::cout.flush();
    dup2(keep1, 1);
    dup2(keep2, 2);
    close(keep1);
    close(keep2);
  };
  try {
    f();
  } catch (...) {
    restore();
    close(fd);
    throw;
  }
  restore();
  std::string out;
  char buf[4096];
  off_t at = 0;
  for (;;) {
    ssize_t n = pread(fd, buf, sizeof buf, at);
    if (n <= 0) break;
    out.append(buf, size_t(n));
    at += n;
  }
  close(fd);
  return out;
}
std::string WithoutTime(const std::string& t) {
  std::istringstream in(t);
  std::string l, out;
  while (std::getline(in, l))
    if (l.compare(0, 13, "Time elapsed:") != 0) out += l + "\n";
  return out;
}
// A second stream type, to show that the type does not matter.
class Counting : public fbstab::OutputStream<Counting> {
 public:
  explicit Counting(long* n) : n_(n) {}

 protected:
  void PrintImplementation(const char* m) const { *n_ += long(strlen(m)); }
  friend class fbstab::OutputStream<Counting>;

 private:
  long* n_;
};
template <class Solver, class Data, class V>
void Default(Solver& sol, const Data& d, V* v, Out* o) {
  try {
    fbstab::SolverOut so = sol.Solve(d, v);
    o->eflag = so.eflag;
    o->residual = so.residual;
    o->initial_residual = so.initial_residual;
    o->newton = so.newton_iters;
    o->prox = so.prox_iters;
  } catch (const std::exception& e) {
    o->threw = true;
    o->what = e.what();
  }
  o->z = v->z;
  o->l = v->l;
  o->v = v->v;
  o->y = v->y;
}
template <class Solver, class Data, class V>
long Count(Solver& sol, const Data& d, V* v) {
  long n = 0;
  Counting os(&n);
  try {
    sol.Solve(d, v, os);
  } catch (const std::exception&) {
  }
  return n;
}
void Streams(Src& s, Case& c) {
  Mixed m = GenMixed(s, {5, 2, 1, 1}, 3);
  Problem& p = m.p;
  AlgorithmParameters op = s.Chance(1, 2) ? Defaults(p) : GenOptions(s);
  op.display_level = Display(s.Below(4));
  Start x = RandomStart(s, p.qp);
  p.Describe(c);
  NoteStart(c, x);
  c.Note("%s", OptStr(op).c_str());
  auto sol = MakeSolver(p);
  sol->Update(op);
  Out mine;
  std::string leak = Captured([&] { mine = sol->Solve(x); });
  NoteOut(c, mine);
  c.nontrivial = mine.threw || mine.newton > 0;
  c.Label("level " + std::to_string(int(op.display_level)));
  VF_CHECK(leak.empty(), "written past the supplied stream: '%s'",
           leak.substr(0, 400).c_str());
  Out def;
  long counted = 0;
  std::string text;
  if (!p.mpc) {
    fbstab::FBstabDense::ProblemData d;
    d.H = p.qp.H;
    d.G = p.qp.G;
    d.A = p.qp.A;
    d.f = p.qp.f;
    d.h = p.qp.h;
    d.b = p.qp.b;
    fbstab::FBstabDense ds(p.qp.nz, p.qp.nl, p.qp.nv);
    fbstab::FBstabDense::Options o;
    static_cast<AlgorithmParameters&>(o) = op;
    ds.UpdateOptions(o);
    fbstab::FBstabDense::Variable v(1, 0, 1);
    auto reset = [&] {
      v.z = x.z;
      v.l = x.l;
      v.v = x.v;
      v.y = x.y;
    };
    reset();
    text = Captured([&] { Default(ds, d, &v, &def); });
    reset();
    leak = Captured([&] { counted = Count(ds, d, &v); });
  } else {
    const Ocp& q = p.ocp;
    fbstab::FBstabMpc::ProblemData d;
    auto seq = [](const std::vector<Mat>& m) {
      fbstab::MatrixSequence r(int(m.size()), int(m[0].rows()),
                               int(m[0].cols()));
      for (size_t i = 0; i < m.size(); i++) r(int(i)) = m[i];
      return r;
    };
    d.Q = seq(q.Q);
    d.R = seq(q.R);
    d.S = seq(q.S);
    d.q = seq(q.q);
    d.r = seq(q.r);
    d.A = seq(q.A);
    d.B = seq(q.B);
    d.c = seq(q.c);
    d.E = seq(q.E);
    d.L = seq(q.L);
    d.d = seq(q.d);
    d.x0 = q.x0;
    fbstab::FBstabMpc ms(q.N, q.nx, q.nu, q.nc);
    fbstab::FBstabMpc::Options o;
    static_cast<AlgorithmParameters&>(o) = op;
    ms.UpdateOptions(o);
    fbstab::FBstabMpc::Variable v(q.N, q.nx, q.nu, q.nc);
    auto reset = [&] {
      v.z = x.z;
      v.l = x.l;
      v.v = x.v;
      v.y = x.y;
    };
    reset();
    text = Captured([&] { Default(ms, d, &v, &def); });
    reset();
    leak = Captured([&] { counted = Count(ms, d, &v); });
  }
  VF_CHECK(SameOut(mine, def), "the default stream changes the result: %s",
           OutStr(def).c_str());
  VF_CHECK(WithoutTime(text) == WithoutTime(mine.log),
           "the default stream shows\n%s\nthe supplied one\n%s", text.c_str(),
           mine.log.c_str());
  VF_CHECK(leak.empty(), "written past the supplied stream: '%s'",
           leak.substr(0, 400).c_str());
  VF_CHECK(std::labs(counted - long(mine.log.size())) <= 12,
           "%ld characters on one stream, %zu on another", counted,
           mine.log.size());
}
// Formats of the default stream itself: the text is passed on as it is.
void Default(Src& s, Case& c) {
  std::string text;
  const int n = s.Int(0, 60);
  for (int i = 0; i < n; i++) {
    const char* parts[] = {"a", "%", "%s", "%d", "\\n", "\n", " ", "%%", "%n"};
    text += parts[s.Below(9)];
  }
  c.Note("message '%s'", text.c_str());
  fbstab::StandardOutput os;
  std::string got = Captured([&] { os.Print(text.c_str()); });
  c.nontrivial = n > 0;
  VF_CHECK(got == text, "printed '%s' as '%s'", text.c_str(), got.c_str());
}
}  // namespace
namespace vf {
std::vector<Property> kProperties = {{"levels", Levels, 32000, 500000},
                                     {"streams", Streams, 8000, 80000},
                                     {"standard_output", Default, 2000, 10000}};
}
