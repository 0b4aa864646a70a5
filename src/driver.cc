// Driver: random search over forked workers, crash/hang detection, shrinking,
// replay and evidence counters. Every run is a pure function of the code under
// test and the seed (case i of sub-property p is seeded by hash(seed, p, i)).
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>

#include "engine.h"

using namespace vf;

namespace vf {
volatile uint64_t* g_used = nullptr;
}

namespace {

double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

int kCaseCpuLimit = 60;  // CPU seconds; a typical case takes milliseconds.

void ArmCpuTimer(int secs) {
  itimerval it{};
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
}

std::string Escape(const std::string& s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}

// Runs a case in this process. Returns "" if it held, otherwise the failure.
std::string RunHere(const Property& p, Src& s, Case& c, bool* discarded) {
  *discarded = false;
  try {
    p.run(s, c);
  } catch (const Failure& f) {
    return std::string(f.what()).empty() ? "failed" : f.what();
  } catch (const Discard&) {
    *discarded = true;
  } catch (const std::exception& e) {
    return std::string("unexpected exception: ") + e.what();
  } catch (...) {
    return "unexpected exception of unknown type";
  }
  return "";
}

uint64_t HashChoices(const std::vector<uint64_t>& v, uint64_t h) {
  for (uint64_t x : v) h = Mix(h ^ x);
  return h;
}

std::string SignalText(int status) {
  char b[128];
  if (WIFSIGNALED(status)) {
    int sg = WTERMSIG(status);
    if (sg == SIGPROF) return "did not terminate within the CPU limit";
    snprintf(b, sizeof b, "process died with signal %d (%s)", sg,
             strsignal(sg));
    return b;
  }
  snprintf(b, sizeof b, "process exited with status %d (sanitizer report?)",
           WEXITSTATUS(status));
  return b;
}

// Runs one stored case in a fork. Returns "" if it held.
std::string RunForked(const Property& p, const std::vector<uint64_t>& choices,
                      std::string* text, std::vector<uint64_t>* used,
                      int cpu_limit) {
  int fd[2];
  if (pipe(fd)) abort();
  fflush(nullptr);
  static uint64_t* counter = static_cast<uint64_t*>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
           -1, 0));
  *counter = 0;
  pid_t pid = fork();
  if (pid == 0) {
    g_used = counter;
    close(fd[0]);
    int nul = open("/dev/null", O_WRONLY);
    if (!getenv("VF_STDERR")) dup2(nul, 2);
    ArmCpuTimer(cpu_limit);
    Src s(choices);
    Case c;
    c.verbose = text != nullptr;
    bool disc;
    std::string f = RunHere(p, s, c, &disc);
    std::ostringstream o;
    o << (f.empty() ? "OK" : "FAIL") << "\n"
      << f.size() << "\n"
      << f << "\n"
      << s.used().size() << "\n";
    for (auto x : s.used()) o << x << " ";
    o << "\n" << c.text;
    std::string str = o.str();
    size_t off = 0;
    while (off < str.size()) {
      ssize_t k = write(fd[1], str.data() + off, str.size() - off);
      if (k <= 0) break;
      off += k;
    }
    close(fd[1]);
    _exit(0);
  }
  close(fd[1]);
  std::string all;
  char buf[65536];
  ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (all.empty() || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    if (used) {
      *used = choices;
      if (used->size() > *counter) used->resize(*counter);
    }
    return SignalText(st);
  }
  std::istringstream in(all);
  std::string tag;
  size_t len, n;
  in >> tag >> len;
  in.get();
  std::string msg(len, 0);
  in.read(&msg[0], len);
  in >> n;
  std::vector<uint64_t> u(n);
  for (auto& x : u) in >> x;
  if (used) *used = u;
  if (text) {
    in.get();
    in.get();
    std::ostringstream rest;
    rest << in.rdbuf();
    *text = rest.str();
  }
  return tag == "OK" ? "" : msg;
}

struct Shared {
  std::atomic<long> min_fail[64];  // per sub-property lowest failing index
};

struct WorkerOut {
  long evaluations = 0, discarded = 0, nontrivial = 0;
  std::map<std::string, long> labels;
};

bool Smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

std::vector<uint64_t> Shrink(const Property& p, std::vector<uint64_t> best,
                             double budget_s, long* attempts) {
  const double t0 = Now();
  *attempts = 0;
  auto try_it = [&](std::vector<uint64_t> cand) {
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (!Smaller(cand, best)) return false;
    if (Now() - t0 > budget_s) return false;
    ++*attempts;
    std::vector<uint64_t> used;
    std::string f = RunForked(p, cand, nullptr, &used, 5);
    if (f.empty()) return false;
    while (!used.empty() && used.back() == 0) used.pop_back();
    best = Smaller(used, cand) ? used : cand;
    return true;
  };
  bool changed = true;
  while (changed && Now() - t0 < budget_s) {
    changed = false;
    for (size_t len = best.size(); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size();) {
        std::vector<uint64_t> c = best;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (try_it(c)) {
          changed = true;
          continue;
        }
        c = best;
        std::fill(c.begin() + i, c.begin() + i + len, 0);
        if (c != best && try_it(c)) changed = true;
        i += len;
        if (Now() - t0 > budget_s) break;
      }
      if (Now() - t0 > budget_s) break;
    }
    for (size_t i = 0; i < best.size(); i++) {
      if (Now() - t0 > budget_s) break;
      uint64_t lo = 0, hi = best[i];
      if (hi == 0) continue;
      // Binary search towards a smaller value of this choice.
      while (lo < hi && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> c = best;
        c[i] = mid;
        if (try_it(c)) {
          changed = true;
          if (i >= best.size()) break;
          hi = best[i];
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

// Runs, in a fork, all the cases that one worker ran up to case `i` of
// sub-property `k`, for failures that need what earlier cases left behind in
// the process (static state, content of freed memory). Three forks at once;
// returns the failure if all of them see it.
struct History {
  uint64_t seed = 0;
  int w = 0, workers = 1;
  size_t k = 0;
  long i = 0;
  std::vector<long> ncases;
};
std::string RunHistory(const History& h, int copies) {
  fflush(nullptr);
  std::vector<pid_t> pid(copies);
  std::vector<int> fds(copies);
  for (int n = 0; n < copies; n++) {
    int fd[2];
    if (pipe(fd)) abort();
    pid[n] = fork();
    fds[n] = fd[0];
    if (pid[n] == 0) {
      close(fd[0]);
      int nul = open("/dev/null", O_WRONLY);
      if (!getenv("VF_STDERR")) dup2(nul, 2);
      char at = 'x';
      for (size_t k = 0; k <= h.k; k++) {
        const Property& p = kProperties[k];
        // The same bookkeeping as in the search, so that memory is used alike.
        std::unordered_set<uint64_t> seen;
        std::map<std::string, long> labels;
        std::string sample;
        const long end = k == h.k ? h.i : h.ncases[k] - 1;
        for (long i = h.w; i <= end; i += h.workers) {
          ArmCpuTimer(kCaseCpuLimit);
          if (k == h.k && i == h.i && write(fd[1], &at, 1) != 1) _exit(9);
          Src s(Mix(Mix(h.seed * 1000003 + k) ^ uint64_t(i)));
          Case c;
          bool disc;
          c.verbose = sample.size() < 1 && h.w == 0;
          std::string f = RunHere(p, s, c, &disc);
          if (k == h.k && i == h.i) {
            f = f.empty() ? "OK" : "F" + f;
            if (write(fd[1], f.data(), f.size()) < 0) _exit(9);
            _exit(0);
          }
          for (auto& l : c.labels) labels[l.first] += l.second;
          if (c.nontrivial && !disc) {
            seen.insert(HashChoices(s.used(), 7));
            if (c.verbose && sample.empty()) sample = c.text;
          }
        }
      }
      _exit(9);
    }
    close(fd[1]);
  }
  std::string msg;
  int hits = 0;
  for (int n = 0; n < copies; n++) {
    std::string all;
    char buf[65536];
    ssize_t r;
    while ((r = read(fds[n], buf, sizeof buf)) > 0) all.append(buf, r);
    close(fds[n]);
    int st = 0;
    waitpid(pid[n], &st, 0);
    if (all.empty() || all == "xOK") continue;  // not reached, or held
    if (all[1] == 'F' && all.size() > 1)
      msg = all.substr(2);
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
      continue;
    else
      msg = SignalText(st);
    hits++;
  }
  return hits == copies ? msg : "";
}

}  // namespace

int main(int argc, char** argv) {
  std::string tier = "quick", out_path, replay, replay_dir = ".", only;
  uint64_t seed = 1;
  int workers = int(sysconf(_SC_NPROCESSORS_ONLN));
  double scale = 1.0, cap_s = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") tier = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
    else if (a == "--out") out_path = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replay-dir") replay_dir = next();
    else if (a == "--workers") workers = atoi(next().c_str());
    else if (a == "--scale") scale = atof(next().c_str());
    else if (a == "--cap") cap_s = atof(next().c_str());
    else if (a == "--only") only = next();
    else if (a == "--cpu") kCaseCpuLimit = atoi(next().c_str());
  }
  if (workers < 1) workers = 1;

  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line, name;
    std::vector<uint64_t> ch;
    History h;
    bool history = false;
    while (std::getline(in, line)) {
      if (line.rfind("history ", 0) == 0) {
        history = true;
        std::istringstream is(line.substr(8));
        is >> h.seed >> h.w >> h.workers >> h.k >> h.i;
        long x;
        while (is >> x) h.ncases.push_back(x);
      }
      if (line.rfind("sub ", 0) == 0) name = line.substr(4);
      if (line.rfind("choices ", 0) == 0) {
        std::istringstream is(line.substr(8));
        uint64_t x;
        while (is >> x) ch.push_back(x);
      }
    }
    if (history) {
      if (h.k >= kProperties.size() || h.ncases.size() <= h.k) return 2;
      std::string f = RunHistory(h, 1);
      printf("%s\n", f.empty() ? "HELD" : ("FAILED: " + f).c_str());
      return f.empty() ? 0 : 1;
    }
    for (auto& p : kProperties) {
      if (name != p.name) continue;
      std::string text;
      std::string f = RunForked(p, ch, &text, nullptr, kCaseCpuLimit);
      printf("%s\n%s\n", text.c_str(),
             f.empty() ? "HELD" : ("FAILED: " + f).c_str());
      return f.empty() ? 0 : 1;
    }
    fprintf(stderr, "no sub-property %s\n", name.c_str());
    return 2;
  }

  if (!(cap_s > 0)) cap_s = tier == "thorough" ? 420 : 300;
  const double t0 = Now();
  Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for (auto& x : sh->min_fail) x = -1;

  std::vector<long> ncases;
  for (auto& p : kProperties) {
    long n = long((tier == "thorough" ? p.thorough_cases : p.quick_cases) *
                  scale);
    if (!only.empty() && only != p.name) n = 0;
    ncases.push_back(n);
  }

  struct W {
    pid_t pid;
    int fd;
    std::string data;
    long* cur;  // shared: [sub, idx]
  };
  std::vector<W> ws(workers);
  long* curs = static_cast<long*>(mmap(nullptr, sizeof(long) * 2 * workers,
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<std::pair<int, std::string>> crash_notes;
  fflush(nullptr);
  for (int w = 0; w < workers; w++) {
    int fd[2];
    if (pipe(fd)) abort();
    ws[w].cur = curs + 2 * w;
    ws[w].cur[0] = -1;
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]);
      int nul = open("/dev/null", O_WRONLY);
      if (!getenv("VF_STDERR")) dup2(nul, 2);
      std::ostringstream o;
      bool capped = false;
      for (size_t k = 0; k < kProperties.size(); k++) {
        const Property& p = kProperties[k];
        WorkerOut wo;
        std::unordered_set<uint64_t> seen;
        std::string sample;
        std::map<std::string, std::string> label_sample;
        for (long i = w; i < ncases[k]; i += workers) {
          long mf = sh->min_fail[k];
          if (mf >= 0 && i > mf) break;
          if (Now() - t0 > cap_s) {
            capped = true;
            break;
          }
          ws[w].cur[0] = long(k);
          ws[w].cur[1] = i;
          ArmCpuTimer(kCaseCpuLimit);
          uint64_t cs = Mix(Mix(seed * 1000003 + k) ^ uint64_t(i));
          Src s(cs);
          Case c;
          bool disc;
          // Samples: describe the first non-trivial cases.
          c.verbose = sample.size() < 1 && w == 0;
          std::string f = RunHere(p, s, c, &disc);
          if (!f.empty()) {
            if (getenv("VF_STDERR"))
              fprintf(stderr, "%s case %ld: %s\n", p.name, i, f.c_str());
            long cur = sh->min_fail[k];
            while ((cur < 0 || i < cur) &&
                   !sh->min_fail[k].compare_exchange_weak(cur, i)) {
            }
            break;
          }
          wo.evaluations++;
          if (disc) wo.discarded++;
          for (auto& l : c.labels) wo.labels[l.first] += l.second;
          if (c.nontrivial && !disc) {
            if (seen.insert(HashChoices(s.used(), 7)).second) wo.nontrivial++;
            if (c.verbose && sample.empty())
              sample = c.text;
          }
        }
        o << "SUB " << k << " " << wo.evaluations << " " << wo.discarded << " "
          << wo.nontrivial << " " << wo.labels.size() << "\n";
        for (auto& l : wo.labels) o << l.second << " " << l.first << "\n";
        o << sample.size() << "\n" << sample << "\n";
      }
      ws[w].cur[0] = -1;
      o << "END " << (capped ? 1 : 0) << "\n";
      std::string str = o.str();
      size_t off = 0;
      while (off < str.size()) {
        ssize_t kk = write(fd[1], str.data() + off, str.size() - off);
        if (kk <= 0) break;
        off += kk;
      }
      _exit(0);
    }
    close(fd[1]);
    ws[w].pid = pid;
    ws[w].fd = fd[0];
  }
  std::vector<WorkerOut> tot(kProperties.size());
  std::vector<std::string> samples(kProperties.size());
  bool capped = false;
  long lost_workers = 0;
  for (auto& w : ws) {
    char buf[65536];
    ssize_t k;
    while ((k = read(w.fd, buf, sizeof buf)) > 0) w.data.append(buf, k);
    int st = 0;
    waitpid(w.pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
        lost_workers++;  // out of memory: inconclusive
        continue;
      }
      if (w.cur[0] >= 0) {
        long kk = w.cur[0], i = w.cur[1];
        long cur = sh->min_fail[kk];
        while ((cur < 0 || i < cur) &&
               !sh->min_fail[kk].compare_exchange_weak(cur, i)) {
        }
      } else {
        lost_workers++;
      }
      continue;
    }
    std::istringstream in(w.data);
    std::string tag;
    while (in >> tag) {
      if (tag == "END") {
        int c;
        in >> c;
        capped |= c != 0;
        break;
      }
      size_t k;
      long e, d, n, nl;
      in >> k >> e >> d >> n >> nl;
      tot[k].evaluations += e;
      tot[k].discarded += d;
      tot[k].nontrivial += n;
      for (long j = 0; j < nl; j++) {
        long cnt;
        std::string l;
        in >> cnt;
        in.get();
        std::getline(in, l);
        tot[k].labels[l] += cnt;
      }
      size_t sl;
      in >> sl;
      in.get();
      std::string smp(sl, 0);
      in.read(&smp[0], sl);
      in.get();
      if (samples[k].empty()) samples[k] = smp;
    }
  }
  const double search_s = Now() - t0;

  // Failures: confirm, shrink, write replay files.
  struct Bad {
    std::string sub, msg, path;
  };
  std::vector<Bad> bads;
  long unreproduced = 0;
  for (size_t k = 0; k < kProperties.size(); k++) {
    long i = sh->min_fail[k];
    if (i < 0) continue;
    const Property& p = kProperties[k];
    uint64_t cs = Mix(Mix(seed * 1000003 + k) ^ uint64_t(i));
    std::vector<uint64_t> choices;
    {
      // Random mode yields Mix(state) % n and replay mode takes v % n, so the
      // raw stream Mix(state) is itself a valid sequence; a run of it reports
      // how much of it is used.
      std::vector<uint64_t> raw(1 << 20);
      uint64_t st = cs;
      for (auto& x : raw) {
        st += 0x9E3779B97F4A7C15ull;
        x = Mix(st);
      }
      RunForked(p, raw, nullptr, &choices, kCaseCpuLimit);
    }
    int hits = 0;
    std::string msg;
    for (int r = 0; r < 3 || (!hits && r < 12); r++) {
      std::string f = RunForked(p, choices, nullptr, nullptr, kCaseCpuLimit);
      if (!f.empty()) {
        hits++;
        msg = f;
      }
    }
    if (hits == 0) {
      History h;
      h.seed = seed;
      h.workers = workers;
      h.w = int(i % workers);
      h.k = k;
      h.i = i;
      h.ncases = ncases;
      msg = RunHistory(h, 3);
      if (!msg.empty()) {
        std::string path =
            replay_dir + "/" + kPropertyId + "-" + p.name + ".replay";
        std::ofstream o(path);
        o << "property " << kPropertyId << "\nsub " << p.name << "\nhistory "
          << seed << " " << h.w << " " << workers << " " << k << " " << i;
        for (long x : ncases) o << " " << x;
        o << "\n--- failure (only after the cases the same process ran "
             "before)\n" << msg << "\n";
        o.close();
        bads.push_back({p.name, msg + " (depends on what the process ran "
                                      "before)", path});
        continue;
      }
      unreproduced++;
      printf("NOTE sub=%s case=%ld failed once but did not reproduce\n", p.name,
             i);
      continue;
    }
    long attempts = 0;
    std::vector<uint64_t> best =
        Shrink(p, choices, tier == "thorough" ? 60 : 20, &attempts);
    std::string text;
    std::string f = RunForked(p, best, &text, nullptr, kCaseCpuLimit);
    if (f.empty()) {
      best = choices;
      f = RunForked(p, best, &text, nullptr, kCaseCpuLimit);
      if (f.empty()) f = msg;
    }
    std::string path =
        replay_dir + "/" + kPropertyId + "-" + p.name + ".replay";
    std::ofstream o(path);
    o << "property " << kPropertyId << "\nsub " << p.name << "\nseed " << seed
      << "\ncase " << i << "\nshrink_attempts " << attempts << "\nchoices";
    for (auto x : best) o << " " << x;
    o << "\n--- failure\n" << f << "\n--- case\n" << text << "\n";
    o.close();
    bads.push_back({p.name, f, path});
  }

  long ev = 0, nt = 0;
  for (auto& t : tot) {
    ev += t.evaluations;
    nt += t.nontrivial;
  }
  std::ostringstream js;
  js << "{\n \"property\": \"" << kPropertyId << "\",\n \"tier\": \"" << tier
     << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n"
     << " \"coverage\": {\n  \"evaluations\": " << ev
     << ",\n  \"distinct_nontrivial\": " << nt << ",\n  \"rule\": \""
     << Escape(kRule) << "\",\n  \"samples\": [";
  bool first = true;
  for (size_t k = 0; k < kProperties.size(); k++) {
    if (samples[k].empty()) continue;
    js << (first ? "" : ", ") << "\"" << kProperties[k].name << ": "
       << Escape(samples[k].substr(0, 3000)) << "\"";
    first = false;
  }
  js << "],\n  \"capped\": " << (capped ? "true" : "false")
     << ",\n  \"unreproduced_failures\": " << unreproduced
     << ",\n  \"lost_workers\": " << lost_workers
     << ",\n  \"search_seconds\": " << search_s << ",\n  \"sub_properties\": {";
  for (size_t k = 0; k < kProperties.size(); k++) {
    js << (k ? ",\n   " : "\n   ") << "\"" << kProperties[k].name
       << "\": {\"evaluations\": " << tot[k].evaluations
       << ", \"discarded\": " << tot[k].discarded
       << ", \"distinct_nontrivial\": " << tot[k].nontrivial
       << ", \"labels\": {";
    bool f2 = true;
    for (auto& l : tot[k].labels) {
      js << (f2 ? "" : ", ") << "\"" << Escape(l.first) << "\": " << l.second;
      f2 = false;
    }
    js << "}}";
  }
  js << "\n  }\n },\n \"wall_s\": " << Now() - t0
     << ",\n \"violations\": " << bads.size() << "\n}\n";
  if (!out_path.empty()) {
    std::ofstream o(out_path);
    o << js.str();
  } else {
    std::cout << js.str();
  }
  for (auto& b : bads) {
    printf("FAILURE sub=%s: %s\n", b.sub.c_str(), b.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", kPropertyId, b.path.c_str());
  }
  if (capped) printf("NOTE time cap reached, exploration incomplete\n");
  fflush(stdout);
  return bads.empty() ? 0 : 1;
}
