// C17: matrix sequences, stateful model under AddressSanitizer.
// RUN: plain
// RUN: asan --scale 0.06
#include <array>
#include <memory>

#include "common.h"
#include "tools/matrix_sequence.h"
using namespace vf;
using fbstab::MapMatrixSequence;
using fbstab::MatrixSequence;
namespace vf {
const char* kPropertyId = "C17";
const char* kRule =
    "A history of 4-30 operations (construct, write through element / block / "
    "whole-matrix / raw views, copy, assign, self-assign, move, map a sequence "
    "or a caller buffer, copy maps, invalid calls) on four sequences and four "
    "maps, against a model of plain arrays; all contents, sizes and views are "
    "compared after every step, exception types included. Non-trivial: at "
    "least one write, one copy or move, and one live map.";
}
static const int kBuf = 700;
struct Seq {
  int len = 0, r = 1, c = 1;
  std::vector<double> d;
};
struct View {
  int owner = -2;  // sequence index, -1: buffer, -2: default-constructed
  int off = 0;     // offset into the buffer
  int len = 0, r = 1, c = 1;
};
template <class F>
static std::string Thrown(F f) {
  try {
    f();
  } catch (const std::out_of_range&) {
    return "out_of_range";
  } catch (const std::runtime_error&) {
    return "runtime_error";
  } catch (const std::exception&) {
    return "other";
  }
  return "";
}
// Mostly short, now and then long.
static int Length(Src& s, int lo, int hi) {
  return s.Chance(1, 60) ? s.Int(lo, 75) : s.Int(lo, hi);
}
static void Run(Src& s, Case& c) {
  std::array<std::unique_ptr<MatrixSequence>, 4> q;
  std::array<Seq, 4> m;
  std::array<MapMatrixSequence, 4> w;
  std::array<View, 4> wm;
  std::unique_ptr<double[]> buf(new double[kBuf]);
  std::vector<double> bm(kBuf);
  double next = 1;  // distinct values
  for (int i = 0; i < kBuf; i++) buf[i] = bm[i] = next++;
  for (auto& x : q) x.reset(new MatrixSequence());
  bool wrote = false, copied = false, mapped = false;
  auto drop = [&](int k) {  // views of a sequence die with its storage
    for (int i = 0; i < 4; i++)
      if (wm[i].owner == k) {
        w[i] = MapMatrixSequence();
        wm[i] = View();
      }
  };
  auto fill = [&](int k) {  // new storage is uninitialised
    drop(k);
    for (size_t i = 0; i < m[k].d.size(); i++)
      q[k]->data()[i] = m[k].d[i] = next++;
  };
  auto check = [&](const char* op) {
    for (int k = 0; k < 4; k++) {
      MatrixSequence& x = *q[k];
      const MatrixSequence& cx = x;
      const Seq& e = m[k];
      VF_CHECK(x.length() == e.len && x.rows() == e.r && x.cols() == e.c &&
                   x.size() == e.len * e.r * e.c,
               "after %s: sequence %d is %d*%dx%d size %d, expected %d*%dx%d",
               op, k, x.length(), x.rows(), x.cols(), x.size(), e.len, e.r,
               e.c);
      VF_CHECK(x.data() == cx.data(), "data() differs by constness");
      for (int t = 0; t < e.len; t++) {
        auto a = x(t);
        auto b = cx(t);
        VF_CHECK(a.rows() == e.r && a.cols() == e.c && b.rows() == e.r &&
                     b.cols() == e.c, "view has the wrong shape");
        for (int j = 0; j < e.c; j++)
          for (int i = 0; i < e.r; i++) {
            const int at = t * e.r * e.c + j * e.r + i;
            VF_CHECK(a(i, j) == e.d[at] && b(i, j) == e.d[at] &&
                         cx.data()[at] == e.d[at],
                     "after %s: element (%d,%d) of matrix %d of sequence %d is "
                     "%g, expected %g", op, i, j, t, k, a(i, j), e.d[at]);
          }
      }
      // Storage is not shared.
      for (int l = 0; l < k; l++)
        if (e.d.size() && m[l].d.size())
          VF_CHECK(q[l]->data() != x.data(), "sequences %d and %d share "
                   "storage", l, k);
    }
    for (int k = 0; k < 4; k++) {
      const View& e = wm[k];
      MapMatrixSequence& x = w[k];
      const MapMatrixSequence& cx = x;
      VF_CHECK(x.length() == e.len && x.rows() == e.r && x.cols() == e.c &&
                   x.size() == e.len * e.r * e.c,
               "after %s: map %d is %d*%dx%d size %d, expected %d*%dx%d", op,
               k, x.length(), x.rows(), x.cols(), x.size(), e.len, e.r, e.c);
      if (e.owner == -2) continue;
      const double* base =
          e.owner == -1 ? buf.get() + e.off : q[e.owner]->data();
      VF_CHECK(x.data() == base && cx.data() == base,
               "after %s: map %d does not alias its memory", op, k);
      const std::vector<double>& d = e.owner == -1 ? bm : m[e.owner].d;
      for (int t = 0; t < e.len; t++) {
        auto a = cx(t);
        VF_CHECK(a.rows() == e.r && a.cols() == e.c, "wrong shape");
        for (int j = 0; j < e.c; j++)
          for (int i = 0; i < e.r; i++) {
            const int at = e.off + t * e.r * e.c + j * e.r + i;
            VF_CHECK(a(i, j) == d[at], "after %s: element (%d,%d) of matrix "
                     "%d of map %d is %g, expected %g", op, i, j, t, k,
                     a(i, j), d[at]);
          }
      }
    }
    for (int i = 0; i < kBuf; i++)
      VF_CHECK(buf[i] == bm[i], "after %s: the caller's buffer changed", op);
  };
  check("construction");
  for (int k = 0; k < 4; k++)
    if (s.Chance(2, 3)) {
      const int len = Length(s, 1, 3), r = s.Int(1, 4), cc = s.Int(1, 3);
      q[k].reset(new MatrixSequence(len, r, cc));
      m[k].len = len;
      m[k].r = r;
      m[k].c = cc;
      m[k].d.assign(len * r * cc, 0);
      fill(k);
    }
  const int rounds = s.Int(4, 30);
  for (int t = 0; t < rounds; t++) {
    const int op = s.Pick({4, 3, 3, 2, 2, 2, 3, 3, 2, 2, 2, 2, 1});
    const int k = s.Int(0, 3), j = s.Int(0, 3);
    const char* name = "";
    switch (op) {
      case 0: {
        name = "construction";
        const int len = Length(s, -1, 4), r = s.Int(-1, 4), cc = s.Int(-1, 3);
        const bool two = s.Chance(1, 4), ok = len >= 0 && r > 0 && (two || cc > 0);
        c.Note("q%d = MatrixSequence(%d, %d, %d)%s", k, len, r, cc,
               two ? " default columns" : "");
        std::unique_ptr<MatrixSequence> x;
        std::string e = Thrown([&] {
          x.reset(two ? new MatrixSequence(len, r)
                      : new MatrixSequence(len, r, cc));
        });
        VF_CHECK(e == (ok ? "" : "runtime_error"),
                 "MatrixSequence(%d, %d, %d): %s", len, r, cc,
                 e.empty() ? "accepted" : e.c_str());
        if (ok) {
          drop(k);
          q[k] = std::move(x);
          m[k].len = len;
          m[k].r = r;
          m[k].c = two ? 1 : cc;
          m[k].d.assign(len * r * m[k].c, 0);
          fill(k);
        }
        break;
      }
      case 1: {
        name = "a write through a view";
        if (!m[k].len) break;
        const int i = s.Int(0, m[k].len - 1), a = s.Int(0, m[k].r - 1),
                  b = s.Int(0, m[k].c - 1);
        c.Note("q%d(%d)(%d,%d) = %g", k, i, a, b, next);
        (*q[k])(i)(a, b) = next;
        m[k].d[i * m[k].r * m[k].c + b * m[k].r + a] = next++;
        wrote = true;
        break;
      }
      case 2: {
        name = "a whole-matrix write";
        if (!m[k].len) break;
        const int i = s.Int(0, m[k].len - 1), n = m[k].r * m[k].c;
        c.Note("q%d(%d) = ...", k, i);
        Mat v(m[k].r, m[k].c);
        for (int e = 0; e < n; e++) v.data()[e] = m[k].d[i * n + e] = next++;
        if (s.Chance(1, 2))
          (*q[k])(i) = v;
        else
          (*q[k])(i).block(0, 0, v.rows(), v.cols()) = v;
        wrote = true;
        break;
      }
      case 3: {
        name = "a raw write";
        if (m[k].d.empty()) break;
        const int i = s.Int(0, int(m[k].d.size()) - 1);
        q[k]->data()[i] = m[k].d[i] = next++;
        wrote = true;
        break;
      }
      case 4:
        name = "copy construction";
        if (j == k) break;
        c.Note("q%d = MatrixSequence(q%d)", k, j);
        drop(k);
        q[k].reset(new MatrixSequence(*q[j]));
        m[k] = m[j];
        copied = true;
        break;
      case 5:
        name = j == k ? "self-assignment" : "copy assignment";
        c.Note("q%d = q%d", k, j);
        drop(k);
        *q[k] = *q[j];
        m[k] = m[j];
        copied = true;
        break;
      case 6: {
        if (j == k) break;
        const bool ctor = s.Chance(1, 2);
        name = ctor ? "move construction" : "move assignment";
        c.Note("q%d = move(q%d) (%s)", k, j, name);
        drop(k);
        drop(j);
        if (ctor)
          q[k].reset(new MatrixSequence(std::move(*q[j])));
        else
          *q[k] = std::move(*q[j]);
        m[k] = m[j];
        // Whatever the source is now, no view may reach null memory.
        if (q[j]->data() == nullptr) {
          const MapMatrixSequence v(*q[j]);
          VF_CHECK(!Thrown([&] { v(0); }).empty(), "a map of null memory can "
                   "be indexed");
        }
        // The source may be assigned to again.
        const MatrixSequence fresh(s.Int(0, 2), s.Int(1, 3), s.Int(1, 3));
        *q[j] = fresh;
        m[j].len = fresh.length();
        m[j].r = fresh.rows();
        m[j].c = fresh.cols();
        m[j].d.assign(fresh.size(), 0);
        fill(j);
        copied = true;
        break;
      }
      case 7: {
        name = "mapping a sequence";
        c.Note("w%d = MapMatrixSequence(q%d)", k, j);
        w[k] = MapMatrixSequence(*q[j]);
        wm[k] = {m[j].len ? j : -2, 0, m[j].len, m[j].r, m[j].c};
        mapped = mapped || m[j].len;
        break;
      }
      case 8: {
        name = "mapping a buffer";
        const int len = Length(s, -1, 3), r = s.Int(-1, 3), cc = s.Int(-1, 3),
                  off = s.Int(0, 20);
        const bool null = s.Chance(1, 6);
        const bool ok = len > 0 && r > 0 && cc > 0 && !null;
        c.Note("w%d = MapMatrixSequence(%s, %d, %d, %d)", k,
               null ? "null" : "buffer", len, r, cc);
        std::string e = Thrown([&] {
          w[k] = MapMatrixSequence(null ? nullptr : buf.get() + off, len, r,
                                   cc);
        });
        VF_CHECK(e == (ok ? "" : "runtime_error"),
                 "MapMatrixSequence(%s, %d, %d, %d): %s",
                 null ? "null" : "buffer", len, r, cc,
                 e.empty() ? "accepted" : e.c_str());
        if (ok) {
          wm[k] = {-1, off, len, r, cc};
          mapped = true;
        }
        break;
      }
      case 9: {
        name = "copying a map";
        c.Note("w%d = w%d", k, j);
        if (s.Chance(1, 2)) {
          w[k] = w[j];
        } else {
          MapMatrixSequence x(w[j]);
          MapMatrixSequence y(std::move(x));
          w[k] = std::move(y);
        }
        wm[k] = wm[j];
        break;
      }
      case 10: {
        name = "writing to the buffer";
        const int i = s.Int(0, kBuf - 1);
        buf[i] = bm[i] = next++;
        break;
      }
      case 11: {
        name = "bad indexing";
        static const int bad[] = {-1, 0, 1, -2147483647 - 1, 2147483647};
        const int b = bad[s.Below(5)];
        const int kq = b <= 0 && b != 0 ? b : b == 2147483647 ? b : m[k].len + b,
                  kw = b <= 0 && b != 0 ? b : b == 2147483647 ? b : wm[k].len + b;
        c.Note("q%d(%d), w%d(%d)", k, kq, k, kw);
        const MatrixSequence& cx = *q[k];
        std::string e = Thrown([&] { (*q[k])(kq); });
        VF_CHECK(e == "out_of_range", "q(%d) of length %d: %s", kq, m[k].len,
                 e.c_str());
        e = Thrown([&] { cx(kq); });
        VF_CHECK(e == "out_of_range", "const q(%d) of length %d: %s", kq,
                 m[k].len, e.c_str());
        e = Thrown([&] { w[k](kw); });
        VF_CHECK(e == "out_of_range", "map(%d) of length %d: %s", kw,
                 wm[k].len, e.c_str());
        break;
      }
      case 12: {  // more numbers than there is memory (or an int can count)
        name = "too many elements";
        // Powers of two: the product is zero if it is computed with an int, so
        // that nothing is allocated then either.
        int d[3], sum = 0;
        double total = 1;
        for (int i = 0; i < 3; i++) {
          const int e = s.Int(i < 2 ? 18 : std::max(8, 48 - sum), 30);
          sum += e;
          d[i] = 1 << e;
          total *= d[i];
        }
        if (s.Chance(1, 2)) std::swap(d[0], d[2]);
        if (s.Chance(1, 2)) std::swap(d[0], d[1]);
        c.Note("%d matrices of size %d x %d", d[0], d[1], d[2]);
        std::string e = Thrown([&] { MatrixSequence x(d[0], d[1], d[2]); });
        VF_CHECK(!e.empty(), "MatrixSequence(%d, %d, %d) accepted", d[0], d[1],
                 d[2]);
        bool same = true;
        e = Thrown([&] {
          MapMatrixSequence x(buf.get(), d[0], d[1], d[2]);
          same = double(x.size()) == total;
        });
        VF_CHECK(!e.empty() || same, "MapMatrixSequence(buffer, %d, %d, %d) "
                 "accepted with another size", d[0], d[1], d[2]);
        break;
      }
    }
    c.Label(name);
    check(name);
  }
  c.nontrivial = wrote && copied && mapped;
}
namespace vf {
std::vector<Property> kProperties = {{"history", Run, 1000000, 12000000}};
}
