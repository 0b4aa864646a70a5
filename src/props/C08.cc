// C08: a solve depends only on its own problem, guess and options.
// RUN: plain
// RUN: tsan --only threads --scale 0.5
#include <atomic>
#include <sstream>
#include <thread>

#include "common.h"
using namespace vf;
namespace vf {
const char* kPropertyId = "C08";
const char* kRule =
    "Random histories of one solver object: solves of different problems "
    "(solvable, infeasible, unbounded, NaN-poisoned), option changes, rejected "
    "or interrupted calls, other solvers working in the middle of a solve or "
    "in other threads, and fresh heap memory filled with various patterns. "
    "Each result and log must equal, bit for bit, that of a fresh object. "
    "Non-trivial: a compared solve took Newton steps after some history.";
}
static std::string StripTime(const std::string& log) {
  std::istringstream in(log);
  std::string line, out;
  while (std::getline(in, line))
    if (line.find("Time elapsed") == std::string::npos) out += line + "\n";
  return out;
}
struct Job {
  Problem p;
  AlgorithmParameters op;
  Start x;
};
static const int kFills[] = {0x00, 0xff, 0x7f, 0x41, -1};

static AlgorithmParameters Opts(Src& s, bool mpc) {
  AlgorithmParameters op;
  switch (s.Pick({2, 2, 4})) {
    case 0: op = mpc ? MpcDefaults() : DenseDefaults(); break;
    case 1: op = mpc ? MpcReliable() : DenseReliable(); break;
    default: op = GenOptions(s); break;
  }
  op.display_level = fbstab::Display(s.Int(0, 3));
  if (op.max_newton_iters > 60) op.max_newton_iters = 60;
  return op;
}
static Problem GenProblem(Src& s, bool mpc, const GenOpts& g,
                          const OcpOpts& oo) {
  Kind k = Kind(s.Pick({5, 2, 1, 1}));
  return mpc ? GenKind(s, k, oo) : GenKind(s, k, g);
}
static void Set(AnySolver* sol, const Problem& p) {
  if (p.mpc)
    static_cast<MpcSolver*>(sol)->SetProblem(p.ocp);
  else
    static_cast<DenseSolver*>(sol)->SetProblem(p.qp);
}
static void Sizes2(Src& s, GenOpts* g, OcpOpts* o) {
  g->fixed = o->fixed = true;
  g->max_nz = s.Int(1, 8);
  g->max_nl = s.Int(0, 4);
  g->max_nv = s.Int(1, 10);
  o->max_N = s.Int(1, 5);
  o->max_nx = s.Int(1, 4);
  o->max_nu = s.Int(1, 3);
  o->max_nc = s.Int(1, 5);
}
static Job GenJob(Src& s, bool mpc, const GenOpts& g, const OcpOpts& oo) {
  Job j;
  j.p = GenProblem(s, mpc, g, oo);
  j.op = Opts(s, mpc);
  j.x = RandomStart(s, j.p.qp);
  return j;
}
static Out Fresh(const Job& j, int fill) {
  SetMallocFill(fill);
  auto f = MakeSolver(j.p);
  f->Update(j.op);
  Out o = f->Solve(j.x);
  f.reset();
  SetMallocFill(-1);
  return o;
}
static void Compare(Case& c, const Job& j, const Out& got, const Out& ref,
                    const char* what) {
  if (SameOut(got, ref) && StripTime(got.log) == StripTime(ref.log)) return;
  j.p.Describe(c);
  NoteStart(c, j.x);
  c.Note("%s", OptStr(j.op).c_str());
  Fail("%s: %s\nfresh object: %s%s", what, OutStr(got).c_str(),
       OutStr(ref).c_str(),
       SameOut(got, ref) ? ("\nlogs differ:\n" + got.log + "---\n" + ref.log)
                               .c_str()
                         : "");
}
// Poisons one entry of the problem.
static void Poison(Src& s, Problem* p) {
  const double bad = s.Chance(1, 2) ? std::nan("") : HUGE_VAL;
  auto put = [&](Mat& m) {
    if (m.size()) m.data()[s.Below(m.size())] = bad;
  };
  auto putv = [&](Vec& m) {
    if (m.size()) m(s.Below(m.size())) = bad;
  };
  if (p->mpc) {
    Ocp& o = p->ocp;
    switch (s.Int(0, 4)) {
      case 0: put(o.Q[s.Below(o.Q.size())]); break;
      case 1: put(o.q[s.Below(o.q.size())]); break;
      case 2: put(o.A[s.Below(o.A.size())]); break;
      case 3: put(o.E[s.Below(o.E.size())]); break;
      default: put(o.d[s.Below(o.d.size())]); break;
    }
  } else {
    switch (s.Int(0, 4)) {
      case 0: put(p->qp.H); break;
      case 1: putv(p->qp.f); break;
      case 2: put(p->qp.G); break;
      case 3: put(p->qp.A); break;
      default: putv(p->qp.b); break;
    }
  }
}
static void History(Src& s, Case& c) {
  const bool mpc = s.Chance(1, 2);
  GenOpts g;
  OcpOpts oo;
  Sizes2(s, &g, &oo);
  SetMallocFill(kFills[s.Int(0, 4)]);
  std::unique_ptr<AnySolver> sol;
  if (mpc)
    sol = MakeMpc(oo.max_N, oo.max_nx, oo.max_nu, oo.max_nc);
  else
    sol = MakeDense(g.max_nz, g.max_nl, g.max_nv);
  SetMallocFill(-1);
  Job j = GenJob(s, mpc, g, oo);
  Set(sol.get(), j.p);
  // Options are those set last; initially the defaults.
  j.op = mpc ? MpcDefaults() : DenseDefaults();
  const int n = s.Int(2, 8);
  bool history = false;
  for (int i = 0; i < n; i++) {
    switch (s.Pick({6, 3, 3, 1, 1, 1, 1, 1})) {
      case 0: {  // new problem and guess, solve and compare
        j.p = GenProblem(s, mpc, g, oo);
        j.x = RandomStart(s, j.p.qp);
        Set(sol.get(), j.p);
        Out o = sol->Solve(j.x);
        Compare(c, j, o, Fresh(j, kFills[s.Int(0, 4)]), "after a history");
        c.Label(o.threw ? "solve threw" : FlagName(o.eflag));
        if (history && o.newton > 0) c.nontrivial = true;
        break;
      }
      case 1: {  // same problem again
        if (s.Chance(1, 2)) j.x = RandomStart(s, j.p.qp);
        Out o = sol->Solve(j.x);
        Compare(c, j, o, Fresh(j, kFills[s.Int(0, 4)]), "solved again");
        c.Label("again");
        if (history && o.newton > 0) c.nontrivial = true;
        break;
      }
      case 2:
        j.op = Opts(s, mpc);
        sol->Update(j.op);
        c.Label("options");
        break;
      case 3: {  // poisoned problem: any outcome, but no after-effects
        Problem p = j.p;
        Poison(s, &p);
        Set(sol.get(), p);
        Out o = sol->Solve(j.x);
        c.Label(o.threw ? "poison threw" : "poison");
        Set(sol.get(), j.p);
        break;
      }
      case 4: {  // interrupted from inside by an exception
        AlgorithmParameters op = j.op;
        op.display_level = s.Chance(1, 2) ? fbstab::Display::ITER
                                          : fbstab::Display::ITER_DETAILED;
        sol->Update(op);
        int left = s.Int(0, 12);
        Out o = sol->Solve(j.x, Iface::OWNING, [&](const char*) {
          if (left-- == 0) throw std::runtime_error("interrupted");
        });
        c.Label(o.threw && o.what == "interrupted" ? "interrupted"
                                                   : "not interrupted");
        VF_CHECK(!(o.threw && o.what == "interrupted") ||
                     (SameBits(o.z, j.x.z) && SameBits(o.l, j.x.l) &&
                      SameBits(o.v, j.x.v)) ||
                     o.log.find("Optimization completed") != std::string::npos,
                 "the guess was overwritten by an interrupted solve");
        sol->Update(j.op);
        break;
      }
      case 5: {  // rejected call
        Start bad = j.x;
        bad.z.conservativeResize(bad.z.size() + 1);
        bad.z(bad.z.size() - 1) = 0;
        Out o = sol->Solve(bad);
        VF_CHECK(o.threw, "ill-sized guess accepted");
        c.Label("rejected");
        break;
      }
      case 6: {  // another object works in the middle of this solve
        const bool mpc2 = s.Chance(1, 2);
        GenOpts g2 = g;
        OcpOpts oo2 = oo;
        if (s.Chance(1, 2)) Sizes2(s, &g2, &oo2);
        Job k = GenJob(s, mpc2, g2, oo2);
        Out ref2 = Fresh(k, -1);
        auto other = MakeSolver(k.p);
        other->Update(k.op);
        AlgorithmParameters keep = j.op;
        j.op.display_level = fbstab::Display::ITER_DETAILED;
        sol->Update(j.op);
        Out ref = Fresh(j, -1);
        int count = 0;
        const int when = s.Int(0, 6);
        bool ran = false;
        Out o2;
        Out o = sol->Solve(j.x, Iface::OWNING, [&](const char*) {
          if (count++ % 7 == when) {
            o2 = other->Solve(k.x);
            ran = true;
          }
        });
        Compare(c, j, o, ref, "with another solver running inside");
        if (ran) Compare(c, k, o2, ref2, "run inside another solve");
        if (ran && o.newton > 0) c.nontrivial = true;
        c.Label(ran ? "nested" : "not nested");
        j.op = keep;
        sol->Update(j.op);
        break;
      }
      case 7:  // continue with another object that this one is moved into
        SetMallocFill(kFills[s.Int(0, 4)]);
        sol->Move(s.Chance(1, 2));
        SetMallocFill(-1);
        c.Label("moved");
        break;
    }
    history = true;
  }
}
static void Threads(Src& s, Case& c) {
  const int T = s.Int(2, 4), per = s.Int(2, 6);
  std::vector<std::vector<Job>> jobs(T);
  std::vector<std::vector<Out>> ref(T), got(T);
  for (int t = 0; t < T; t++)
    for (int i = 0; i < per; i++) {
      GenOpts g;
      OcpOpts o;
      Sizes2(s, &g, &o);
      jobs[t].push_back(GenJob(s, s.Chance(1, 2), g, o));
      ref[t].push_back(Fresh(jobs[t].back(), -1));
      if (ref[t].back().newton > 0) c.nontrivial = true;
    }
  // Each thread keeps its own solvers and solves again and again; the first
  // round starts when all threads are there.
#if defined(__SANITIZE_THREAD__)
  const int rounds = 1;
#else
  const int rounds = 6;
#endif
  std::vector<int> bad(T, -1);
  std::atomic<int> ready(0);
  std::vector<std::thread> th;
  for (int t = 0; t < T; t++)
    th.emplace_back([&, t] {
      ready++;
      while (ready < T) std::this_thread::yield();
      for (int r = 0; r < rounds && bad[t] < 0; r++) {
        got[t].clear();
        for (auto& j : jobs[t]) {
          auto f = MakeSolver(j.p);
          f->Update(j.op);
          got[t].push_back(f->Solve(j.x));
        }
        for (int i = 0; i < per; i++)
          if (!SameOut(got[t][i], ref[t][i])) bad[t] = i;
      }
    });
  for (auto& x : th) x.join();
  c.Label("threads", T);
  for (int t = 0; t < T; t++)
    for (int i = 0; i < per; i++)
      Compare(c, jobs[t][i], got[t][i], ref[t][i], "in one of several threads");
}
static void Memory(Src& s, Case& c) {
  GenOpts g = Sizes(s);
  g.fixed = false;
  OcpOpts o = OcpSizes(s);
  Job j = GenJob(s, s.Chance(1, 2), g, o);
  Out a = Fresh(j, 0xff);
  c.nontrivial = a.newton > 0;
  c.Label(a.threw ? "threw" : FlagName(a.eflag));
  Compare(c, j, Fresh(j, 0x00), a, "fresh memory zero instead of 0xff");
  Compare(c, j, Fresh(j, 0x7f), a, "fresh memory 0x7f instead of 0xff");
}
namespace vf {
std::vector<Property> kProperties = {{"history", History, 40000, 400000},
                                     {"threads", Threads, 800, 10000},
                                     {"memory", Memory, 40000, 400000}};
}
