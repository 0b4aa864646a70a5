// A small property-based testing engine (choice-sequence based, in the style
// of Hypothesis): a property is a function of a stream of bounded integer
// choices. The stream is random, a stored sequence (replay / shrinking) or the
// bytes of a fuzzer. Shrinking edits the sequence, so every generator shrinks.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {

inline uint64_t Mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Discard {};

// When set (by the driver), counts the choices drawn, so that the count
// survives a crash of the process running the case.
extern volatile uint64_t* g_used;

// Source of all randomness in a case.
class Src {
 public:
  explicit Src(uint64_t seed) : state_(seed), random_(true) {}
  explicit Src(std::vector<uint64_t> replay)
      : random_(false), replay_(std::move(replay)) {}

  // Uniform choice in [0, n), n >= 1. 0 is the simplest value.
  uint64_t Below(uint64_t n) {
    uint64_t v = 0;
    if (random_) {
      state_ += 0x9E3779B97F4A7C15ull;
      v = n <= 1 ? 0 : Mix(state_) % n;
    } else if (used_.size() < replay_.size()) {
      v = replay_[used_.size()];
      if (v >= n) v = n <= 1 ? 0 : v % n;
    }
    used_.push_back(v);
    if (g_used) *g_used = used_.size();
    return v;
  }
  int Int(int lo, int hi) { return lo + int(Below(uint64_t(hi - lo) + 1)); }
  // Integer in [-r, r] ordered 0, 1, -1, 2, -2, ... for shrinking.
  int Signed(int r) {
    uint64_t k = Below(2 * uint64_t(r) + 1);
    return (k & 1) ? int((k + 1) / 2) : -int(k / 2);
  }
  bool Chance(int num, int den) { return Below(den) >= uint64_t(den - num); }
  double Unit() { return double(Below(1u << 24)) / double(1u << 24); }  // [0,1)
  // Real in [-r, r]; simplest is 0.
  double Real(double r) {
    return r * double(Signed(1 << 20)) / double(1 << 20);
  }
  double LogUniform(double lo, double hi) {
    return std::exp(std::log(lo) + Unit() * (std::log(hi) - std::log(lo)));
  }
  // Weighted pick, returns the index.
  int Pick(std::initializer_list<int> w) {
    int tot = 0;
    for (int x : w) tot += x;
    int k = int(Below(tot)), i = 0;
    for (int x : w) {
      if (k < x) return i;
      k -= x;
      i++;
    }
    return 0;
  }
  const std::vector<uint64_t>& used() const { return used_; }

 private:
  uint64_t state_ = 0;
  bool random_;
  std::vector<uint64_t> replay_;
  std::vector<uint64_t> used_;
};

// What a case reports about itself.
struct Case {
  bool nontrivial = false;
  bool verbose = false;  // ask for a description of the case
  std::string text;      // description (filled when verbose)
  std::map<std::string, long> labels;
  void Label(const std::string& l, long n = 1) { labels[l] += n; }
  void Note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose) return;
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    text += buf;
    text += '\n';
  }
};

[[noreturn]] inline void Fail(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
inline void Fail(const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Failure(buf);
}
#define VF_CHECK(cond, ...)      \
  do {                           \
    if (!(cond)) vf::Fail(__VA_ARGS__); \
  } while (0)

// One sub-property of a check. `share` weighs how many cases it gets.
struct Property {
  const char* name;
  void (*run)(Src&, Case&);
  int quick_cases;
  int thorough_cases;
};

// Each check's translation unit defines these.
extern const char* kPropertyId;
extern const char* kRule;
extern std::vector<Property> kProperties;

}  // namespace vf
