// Type-erased access to the two public solvers, so that only api_*.cc
// instantiate the solver templates.
#pragma once
#include <functional>
#include <memory>
#include <string>

#include "fbstab/fbstab_algorithm.h"
#include "qp.h"

namespace vf {

using fbstab::AlgorithmParameters;
using fbstab::ExitFlag;

struct Out {
  ExitFlag eflag = ExitFlag::DIVERGENCE;
  double residual = 0, initial_residual = 0, time = 0;
  int newton = 0, prox = 0;
  Vec z, l, v, y;
  std::string log;  // everything printed to the stream
  bool threw = false;
  bool runtime_error = false;  // the exception was a std::runtime_error
  std::string what;
};
// Bitwise equality of everything but the time and log (NaN equals NaN).
bool SameBits(const Vec& a, const Vec& b);
bool SameOut(const Out& a, const Out& b);
std::string OutStr(const Out& o);
const char* FlagName(ExitFlag e);
std::string OptStr(const AlgorithmParameters& p);

// How arguments are handed over.
enum class Iface {
  OWNING = 0,  // ProblemData + Variable
  REF = 1,     // ProblemDataRef + VariableRef
  MIX1 = 2,    // ProblemDataRef + Variable
  MIX2 = 3,    // ProblemData + VariableRef
};

struct Start {
  Vec z, l, v, y;
};

// A solver of fixed size for dense problems or OCPs.
class AnySolver {
 public:
  virtual ~AnySolver() = default;
  virtual void Update(const AlgorithmParameters& p) = 0;
  // Catches exceptions. `hook` (optional) is called on every printed message.
  virtual Out Solve(const Start& x, Iface iface,
                    const std::function<void(const char*)>& hook) = 0;
  // Continues with a solver that this one was moved into (by construction, or
  // by assignment over a solver of other sizes), where the solvers are movable.
  virtual void Move(bool assign) = 0;
  Out Solve(const Start& x, Iface iface = Iface::OWNING) {
    return Solve(x, iface, nullptr);
  }
};
class DenseSolver : public AnySolver {
 public:
  virtual void SetProblem(const Qp& p) = 0;
  // Compares the problem data held with the one that was set.
  virtual bool DataIntact() const = 0;
};
class MpcSolver : public AnySolver {
 public:
  virtual void SetProblem(const Ocp& p) = 0;
  virtual bool DataIntact() const = 0;
};
std::unique_ptr<DenseSolver> MakeDense(int nz, int nl, int nv);
std::unique_ptr<MpcSolver> MakeMpc(int N, int nx, int nu, int nc);
AlgorithmParameters DenseDefaults();
AlgorithmParameters DenseReliable();
AlgorithmParameters MpcDefaults();
AlgorithmParameters MpcReliable();

// Either kind of problem; `qp` is always the dense form.
struct Problem {
  bool mpc = false;
  Qp qp;
  Ocp ocp;
  void Describe(Case& c) const {
    if (mpc)
      ocp.Describe(c);
    else
      qp.Describe(c);
  }
};
Problem FromQp(const Qp& q);
Problem FromOcp(const Ocp& o);
// A fresh solver of the right size, with the problem set.
std::unique_ptr<AnySolver> MakeSolver(const Problem& p);
Start Zeros(const Qp& p);
Start RandomStart(Src& s, const Qp& p);
void NoteStart(Case& c, const Start& x);
void NoteOut(Case& c, const Out& o);

// Options: valid (inside the documented ranges, consistent ordering).
AlgorithmParameters GenOptions(Src& s);

// Memory fill pattern for malloc (see malloc_fill.cc); -1 leaves it alone.
void SetMallocFill(int byte);
// Counts calls of malloc since the program start.
long MallocCount();

}  // namespace vf
