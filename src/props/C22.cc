// C22: the core algorithm with instrumented, fault-injecting components.
#include "comp.h"
#include "api_impl.h"
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/riccati_linear_solver.h"
using namespace vf;
using fbstab::Data;
using fbstab::DenseCholeskySolver;
using fbstab::DenseData;
using fbstab::FullFeasibility;
using fbstab::FullResidual;
using fbstab::FullVariable;
using fbstab::MpcData;
using fbstab::RiccatiLinearSolver;
namespace vf {
const char* kPropertyId = "C22";
const char* kRule =
    "The algorithm template is instantiated with components that check every "
    "call they receive against the documented contract and can fail or return "
    "any verdict at a chosen call. Histories of 1-4 solves (new data objects, "
    "options, guesses, fault positions anywhere in the run) are compared with "
    "the public solvers. Non-trivial: at least one factorisation.";
}
namespace {
enum class Fault { NONE, INITIALIZE, SOLVE, VERDICT, NEVER };
struct Trace {
  const Data* data = nullptr;  // of the current solve
  const Qp* q = nullptr;
  AlgorithmParameters op;
  Start guess;
  bool margins = true;
  Fault fault = Fault::NONE;
  int at = 0;  // the call that fails (from 1)
  int verdict = 0;
  // counters
  int init = 0, solve = 0, feas = 0;
  bool failed = false;     // a fault has been reported to the algorithm
  bool factored = false;   // the last Initialize succeeded
  bool fresh = false;      // no Solve since
  bool inner_seen = false; // an InnerResidual call in this solve
  Start fx, fbar;          // point of the last factorisation
  Start bar;               // centre of the current subproblem
  Start step;              // last point given to the feasibility check

  void Begin() {
    init = solve = feas = 0;
    failed = factored = fresh = inner_seen = false;
  }
  void Use(const Data* d, const char* what) {
    VF_CHECK(!failed, "%s used after a component reported failure", what);
    VF_CHECK(d == data, "%s used without the current problem data", what);
  }
  void Point(const FullVariable& x, const char* what) {
    VF_CHECK(x.z().size() == q->nz && x.l().size() == q->nl &&
                 x.v().size() == q->nv && x.y().size() == q->nv,
             "%s: point of the wrong size", what);
    if (!margins) return;
    Vec y = q->b - q->A * x.z();
    const double scale =
        1 + InfNorm(q->b) + q->A.cwiseAbs().rowwise().sum().maxCoeff() *
                                (1 + InfNorm(x.z()) + InfNorm(guess.z));
    VF_CHECK(!((y - x.y()).cwiseAbs().maxCoeff() > 1e-6 * scale),
             "%s: margins of the point are not b - Az", what);
  }
};
// The wrappers derive from the components, so that whatever else the algorithm
// may use is there as well.
struct SpyVar : FullVariable {
  Trace* t = nullptr;
  const Data* d = nullptr;
  SpyVar(Trace* tr, const Qp& q) : FullVariable(q.nz, q.nl, q.nv), t(tr) {}
  void LinkData(const Data* p) {
    d = p;
    FullVariable::LinkData(p);
  }
  void Fill(double a) {
    t->Use(d, "Variable::Fill");
    FullVariable::Fill(a);
  }
  void InitializeConstraintMargin() {
    t->Use(d, "Variable::InitializeConstraintMargin");
    FullVariable::InitializeConstraintMargin();
  }
  void axpy(double a, const FullVariable& o) {
    t->Use(d, "Variable::axpy");
    FullVariable::axpy(a, o);
  }
  void Copy(const FullVariable& o) {
    VF_CHECK(!t->failed, "Variable::Copy used after a failure");
    FullVariable::Copy(o);
  }
};
struct SpyRes : FullResidual {
  Trace* t;
  const Data* d = nullptr;
  double alpha = -1;
  bool meaningful = false;
  SpyRes(Trace* tr, const Qp& q) : FullResidual(q.nz, q.nl, q.nv), t(tr) {}
  void SetAlpha(double a) {
    alpha = a;
    FullResidual::SetAlpha(a);
  }
  void LinkData(const Data* p) {
    d = p;
    FullResidual::LinkData(p);
  }
  void Fill(double a) {
    FullResidual::Fill(a);
    meaningful = true;
  }
  double Norm() const {
    VF_CHECK(meaningful, "norm of a residual that was never computed");
    return FullResidual::Norm();
  }
  double Merit() const {
    VF_CHECK(meaningful, "merit of a residual that was never computed");
    return FullResidual::Merit();
  }
  void Ready(const char* what) {
    t->Use(d, what);
    VF_CHECK(alpha == t->op.alpha, "%s with alpha %.17g, configured %.17g",
             what, alpha, t->op.alpha);
    meaningful = true;
  }
  void InnerResidual(const SpyVar& x, const SpyVar& bar, double sigma) {
    Ready("Residual::InnerResidual");
    VF_CHECK(sigma == t->op.sigma0, "sigma is %.17g, configured %.17g", sigma,
             t->op.sigma0);
    t->Point(x, "Residual::InnerResidual");
    t->Point(bar, "Residual::InnerResidual (centre)");
    if (!t->inner_seen)
      VF_CHECK(SameBits(bar.z(), t->guess.z) && SameBits(bar.l(), t->guess.l) &&
                   SameBits(bar.v(), t->guess.v),
               "the first subproblem is not centred at the guess");
    t->inner_seen = true;
    t->bar = Snap(bar);
    FullResidual::InnerResidual(x, bar, sigma);
  }
  void NaturalResidual(const SpyVar& x) {
    Ready("Residual::NaturalResidual");
    t->Point(x, "Residual::NaturalResidual");
    FullResidual::NaturalResidual(x);
  }
  void PenalizedNaturalResidual(const SpyVar& x) {
    Ready("Residual::PenalizedNaturalResidual");
    t->Point(x, "Residual::PenalizedNaturalResidual");
    FullResidual::PenalizedNaturalResidual(x);
  }
};
template <class Lin, class D>
struct SpyLin : Lin {
  Trace* t;
  const Data* d = nullptr;
  double alpha = -1;
  mutable std::unique_ptr<FullResidual> scratch;
  template <class... A>
  SpyLin(Trace* tr, A... a) : Lin(a...), t(tr) {}
  void SetAlpha(double a) {
    alpha = a;
    Lin::SetAlpha(a);
  }
  void LinkData(const D* p) {
    d = p;
    Lin::LinkData(p);
  }
  bool Initialize(const SpyVar& x, const SpyVar& bar, double sigma) {
    t->Use(d, "LinearSolver::Initialize");
    VF_CHECK(alpha == t->op.alpha, "LinearSolver alpha %.17g, configured %.17g",
             alpha, t->op.alpha);
    VF_CHECK(sigma == t->op.sigma0,
             "LinearSolver sigma is %.17g, configured %.17g", sigma,
             t->op.sigma0);
    t->Point(x, "LinearSolver::Initialize");
    t->Point(bar, "LinearSolver::Initialize (centre)");
    VF_CHECK(Same(Snap(bar), t->bar),
             "factored about another centre than the residual");
    VF_CHECK(t->init < t->op.max_newton_iters, "more steps than permitted");
    t->init++;
    t->factored = t->fresh = false;
    if (t->fault == Fault::INITIALIZE && t->init == t->at) {
      t->failed = true;
      return false;
    }
    t->factored = t->fresh = Lin::Initialize(x, bar, sigma);
    if (!t->factored) t->failed = true;
    t->fx = Snap(x);
    t->fbar = Snap(bar);
    return t->factored;
  }
  bool Solve(const SpyRes& r, SpyVar* dx) const {
    t->Use(d, "LinearSolver::Solve");
    VF_CHECK(t->factored, "LinearSolver::Solve without a factorisation");
    VF_CHECK(dx != nullptr, "LinearSolver::Solve with a null output");
    if (t->fresh) {
      // The right-hand side is the negative residual at the factored point.
      FullVariable x(t->q->nz, t->q->nl, t->q->nv),
          b(t->q->nz, t->q->nl, t->q->nv);
      auto put = [](const Start& s0, FullVariable* v) {
        v->z() = s0.z;
        v->l() = s0.l;
        v->v() = s0.v;
        v->y() = s0.y;
      };
      put(t->fx, &x);
      put(t->fbar, &b);
      scratch.reset(new FullResidual(t->q->nz, t->q->nl, t->q->nv));
      scratch->LinkData(d);
      scratch->SetAlpha(alpha);
      scratch->InnerResidual(x, b, t->op.sigma0);
      auto neg = [](const Vec& a, const Vec& c, const char* n) {
        for (int i = 0; i < a.size(); i++)
          VF_CHECK(!(std::fabs(a(i) + c(i)) >
                     1e-9 * (1 + std::fabs(a(i)) + InfNorm(c))),
                   "Newton right-hand side %s(%d) is %.17g, the residual at the "
                   "factored point %.17g",
                   n, i, a(i), c(i));
      };
      neg(r.z(), scratch->z(), "z");
      neg(r.l(), scratch->l(), "l");
      neg(r.v(), scratch->v(), "v");
    }
    t->fresh = false;
    t->solve++;
    if (t->fault == Fault::SOLVE && t->solve == t->at) {
      t->failed = true;
      return false;
    }
    const bool ok = Lin::Solve(r, dx);
    if (!ok) t->failed = true;
    return ok;
  }
};
struct SpyFeas : FullFeasibility {
  using FeasibilityStatus = FullFeasibility::FeasibilityStatus;
  Trace* t;
  const Data* d = nullptr;
  SpyFeas(Trace* tr, const Qp& q)
      : FullFeasibility(q.nz, q.nl, q.nv), t(tr) {}
  void LinkData(const Data* p) {
    d = p;
    FullFeasibility::LinkData(p);
  }
  FeasibilityStatus CheckFeasibility(const SpyVar& x, double tol) {
    t->Use(d, "Feasibility::CheckFeasibility");
    VF_CHECK(t->op.check_feasibility,
             "feasibility checked although it is disabled");
    VF_CHECK(tol == t->op.infeas_tol,
             "feasibility tolerance %.17g, configured %.17g", tol,
             t->op.infeas_tol);
    t->feas++;
    t->step = Snap(x);
    if (t->fault == Fault::NEVER) return FeasibilityStatus::FEASIBLE;
    if (t->fault == Fault::VERDICT && t->feas == t->at)
      return FeasibilityStatus(t->verdict);
    return FullFeasibility::CheckFeasibility(x, tol);
  }
};
// The algorithm with its components, for one problem size.
class Rig {
 public:
  virtual ~Rig() {}
  virtual void Update(const AlgorithmParameters& op) = 0;
  virtual Out Solve(const Bound& b, const Start& x) = 0;
  virtual AlgorithmParameters Current() = 0;
  Trace t;
};
template <class Lin, class D>
class RigT : public Rig {
  using L = SpyLin<Lin, D>;
  using Alg = fbstab::FBstabAlgorithm<SpyVar, SpyRes, L, SpyFeas>;

 public:
  template <class... Sizes>
  RigT(const Qp& q, Sizes... n)
      : a_(&t, q), b_(&t, q), c_(&t, q), d_(&t, q), r_(&t, q), s_(&t, q),
        l_(&t, n...), f_(&t, q) {
    alg_.reset(new Alg(&a_, &b_, &c_, &d_, &r_, &s_, &l_, &f_));
  }
  void Update(const AlgorithmParameters& op) override {
    alg_->UpdateParameters(&op);
  }
  AlgorithmParameters Current() override { return alg_->CurrentParameters(); }
  Out Solve(const Bound& b, const Start& x) override {
    Out o;
    const std::function<void(const char*)> none;
    Recorder os(&o.log, &none);
    const D& data = static_cast<const D&>(*b.data);
    Vec z = x.z, l = x.l, v = x.v, y = x.y;
    t.data = b.data;
    t.q = &b.qp();
    t.guess = x;
    t.Begin();
    try {
      fbstab::SolverOut so = alg_->Solve(data, &z, &l, &v, &y, os);
      o.eflag = so.eflag;
      o.residual = so.residual;
      o.initial_residual = so.initial_residual;
      o.newton = so.newton_iters;
      o.prox = so.prox_iters;
      o.time = so.solve_time;
    } catch (const Failure&) {
      throw;
    } catch (const std::exception& e) {
      o.threw = true;
      o.what = e.what();
      o.runtime_error = dynamic_cast<const std::runtime_error*>(&e) != nullptr;
    }
    o.z = z;
    o.l = l;
    o.v = v;
    o.y = y;
    return o;
  }

 private:
  SpyVar a_, b_, c_, d_;
  SpyRes r_, s_;
  L l_;
  SpyFeas f_;
  std::unique_ptr<Alg> alg_;
};
std::unique_ptr<Rig> MakeRig(const Problem& p) {
  if (!p.mpc)
    return std::unique_ptr<Rig>(new RigT<DenseCholeskySolver, DenseData>(
        p.qp, p.qp.nz, p.qp.nl, p.qp.nv));
  return std::unique_ptr<Rig>(new RigT<RiccatiLinearSolver, MpcData>(
      p.qp, p.ocp.N, p.ocp.nx, p.ocp.nu, p.ocp.nc));
}
Problem Like(Src& s, const Problem& p, bool first) {
  if (first) return p;
  if (!p.mpc) {
    GenOpts g;
    g.fixed = true;
    g.max_nz = p.qp.nz;
    g.max_nl = p.qp.nl;
    g.max_nv = p.qp.nv;
    Vec a, b;
    switch (s.Pick({4, 2, 1, 1})) {
      case 0: return FromQp(GenSolvable(s, g));
      case 1: return FromQp(GenAnyQp(s, g));
      case 2: return FromQp(GenPrimalInfeasible(s, g, &a, &b));
      default: return FromQp(GenUnbounded(s, g, &a));
    }
  }
  OcpOpts o;
  o.fixed = true;
  o.max_N = p.ocp.N;
  o.max_nx = p.ocp.nx;
  o.max_nu = p.ocp.nu;
  o.max_nc = p.ocp.nc;
  switch (s.Pick({4, 2, 1, 1})) {
    case 0: return FromOcp(GenOcp(s, o));
    case 1: return FromOcp(GenAnyOcp(s, o));
    case 2: return FromOcp(GenOcpInfeasible(s, o));
    default: return FromOcp(GenOcpUnbounded(s, o));
  }
}
Out Public(const Problem& p, const AlgorithmParameters& op, const Start& x) {
  auto sol = MakeSolver(p);
  sol->Update(op);
  return sol->Solve(x);
}
void Counts(const Trace& t, const Out& o) {
  const int want =
      !t.op.check_feasibility ? 0 : o.prox + (Infeasible(o.eflag) ? 1 : 0);
  VF_CHECK(t.feas == want,
           "%d feasibility checks for %d outer iterations (%s)", t.feas, o.prox,
           FlagName(o.eflag));
  VF_CHECK(t.solve == o.newton && t.init == o.newton,
           "%d factorisations and %d solves for %d Newton iterations", t.init,
           t.solve, o.newton);
}
void History(Src& s, Case& c) {
  Problem first;
  {
    GenOpts g;
    g.max_nz = 6;
    g.max_nv = 8;
    OcpOpts o;
    o.max_N = 4;
    o.max_nx = 3;
    const Kind k = Kind(s.Pick({5, 2, 1, 1}));
    first = s.Chance(3, 8) ? GenKind(s, k, o) : GenKind(s, k, g);
  }
  auto rig = MakeRig(first);
  const int n = s.Int(1, 4);
  std::vector<std::unique_ptr<Bound>> keep;
  for (int i = 0; i < n; i++) {
    Problem p = Like(s, first, i == 0);
    keep.emplace_back(new Bound(p, s.Chance(1, 2)));
    const Bound& b = *keep.back();
    AlgorithmParameters op = s.Chance(1, 3) ? Reliable(p) : GenOptions(s);
    if (op.max_newton_iters > 60) op.max_newton_iters = s.Int(20, 60);
    op.ValidateOptions();
    Start x = RandomStart(s, p.qp);
    p.Describe(c);
    NoteStart(c, x);
    c.Note("%s", OptStr(op).c_str());
    Out clean = Public(p, op, x);
    NoteOut(c, clean);
    Trace& t = rig->t;
    t.op = op;
    t.margins = MarginsBounded(p.qp, op);
    rig->Update(op);
    AlgorithmParameters cur = rig->Current();
    VF_CHECK(OptStr(cur) == OptStr(op), "options in force: %s",
             OptStr(cur).c_str());
    // Pick a fault.
    std::vector<Fault> can{Fault::NONE};
    if (!clean.threw && clean.newton > 0) {
      can.push_back(Fault::INITIALIZE);
      can.push_back(Fault::SOLVE);
    }
    if (!clean.threw && op.check_feasibility) {
      can.push_back(Fault::NEVER);
      if (clean.prox > 0) {
        can.push_back(Fault::VERDICT);
        can.push_back(Fault::VERDICT);
      }
    }
    t.fault = can[s.Below(can.size())];
    t.at = 0;
    if (t.fault == Fault::INITIALIZE || t.fault == Fault::SOLVE)
      t.at = s.Int(1, clean.newton);
    if (t.fault == Fault::VERDICT) {
      t.at = s.Int(1, clean.prox);
      t.verdict = s.Int(1, 3);
    }
    c.Note("fault %d at call %d verdict %d", int(t.fault), t.at, t.verdict);
    Out o = rig->Solve(b, x);
    NoteOut(c, o);
    VF_CHECK(b.Intact(), "problem data modified");
    if (t.init > 0) c.nontrivial = true;
    switch (t.fault) {
      case Fault::NONE:
        c.Label(clean.threw ? "genuine failure" : "no fault");
        if (clean.threw) {
          VF_CHECK(o.threw && o.runtime_error, "a failure went unreported: %s",
                   OutStr(o).c_str());
          VF_CHECK(SameBits(o.z, x.z) && SameBits(o.l, x.l) &&
                       SameBits(o.v, x.v) && SameBits(o.y, x.y),
                   "the guess was touched by a solve that failed");
          break;
        }
        VF_CHECK(SameOut(o, clean), "instrumented: %s\npublic solver: %s",
                 OutStr(o).c_str(), OutStr(clean).c_str());
        Counts(t, o);
        break;
      case Fault::INITIALIZE:
      case Fault::SOLVE:
        c.Label(t.fault == Fault::SOLVE ? "solve fails" : "factorisation fails");
        if (t.at > 1) c.Label("failure after the first step");
        VF_CHECK(o.threw && o.runtime_error && !o.what.empty(),
                 "the linear solver reported failure, the solve returned %s",
                 OutStr(o).c_str());
        VF_CHECK((t.fault == Fault::SOLVE ? t.solve : t.init) == t.at,
                 "component used after it failed");
        VF_CHECK(SameBits(o.z, x.z) && SameBits(o.l, x.l) &&
                     SameBits(o.v, x.v) && SameBits(o.y, x.y),
                 "the guess was touched by a solve that failed: %s",
                 StrV(o.z).c_str());
        break;
      case Fault::NEVER: {
        c.Label("verdicts suppressed");
        AlgorithmParameters q = op;
        q.check_feasibility = false;
        Out want = Public(p, q, x);
        if (want.threw) break;
        VF_CHECK(SameOut(o, want),
                 "with every verdict 'feasible': %s\nwith checking disabled: %s",
                 OutStr(o).c_str(), OutStr(want).c_str());
        Counts(t, o);
        break;
      }
      case Fault::VERDICT: {
        c.Label("verdict " + std::to_string(t.verdict));
        const ExitFlag e =
            t.verdict == 1   ? ExitFlag::PRIMAL_INFEASIBLE
            : t.verdict == 2 ? ExitFlag::DUAL_INFEASIBLE
                             : ExitFlag::PRIMAL_DUAL_INFEASIBLE;
        VF_CHECK(!o.threw && o.eflag == e && o.prox == t.at - 1,
                 "verdict %d in outer iteration %d, result %s", t.verdict, t.at,
                 OutStr(o).c_str());
        Counts(t, o);
        VF_CHECK(SameBits(o.z, t.step.z) && SameBits(o.l, t.step.l) &&
                     SameBits(o.v, t.step.v) && SameBits(o.y, t.step.y),
                 "the output is not the vector that was judged: %s",
                 OutStr(o).c_str());
        // ... which is the last step.
        AlgorithmParameters q = op;
        q.max_prox_iters = t.at;
        Out end = Public(p, q, x);
        Start from = x;
        if (t.at > 1) {
          q.max_prox_iters = t.at - 1;
          Out bo = Public(p, q, x);
          from = {bo.z, bo.l, bo.v, bo.y};
        }
        VF_CHECK(end.newton == o.newton, "%d Newton iterations, %d expected",
                 o.newton, end.newton);
        auto diff = [](const Vec& a, const Vec& b0, const Vec& d) {
          const double sc = 1e-12 * (InfNorm(a) + InfNorm(b0)) + 1e-300;
          return !d.size() || (a - b0 - d).cwiseAbs().maxCoeff() <= sc;
        };
        VF_CHECK(diff(end.z, from.z, o.z) && diff(end.l, from.l, o.l) &&
                     diff(end.v, from.v, o.v),
                 "the output is not the last step: %s", OutStr(o).c_str());
        VF_CHECK(o.initial_residual == clean.initial_residual,
                 "initial residual %.17g", o.initial_residual);
        break;
      }
    }
    if (i > 0) c.Label("reused");
  }
}
// Missing components.
void Null(Src& s, Case& c) {
  GenOpts g;
  Problem p = FromQp(GenAnyQp(s, g));
  const Qp& q = p.qp;
  using Alg = fbstab::FBstabAlgorithm<FullVariable, FullResidual,
                                      DenseCholeskySolver, FullFeasibility>;
  FullVariable a(q.nz, q.nl, q.nv), b(q.nz, q.nl, q.nv), d(q.nz, q.nl, q.nv),
      e(q.nz, q.nl, q.nv);
  FullResidual r(q.nz, q.nl, q.nv), t(q.nz, q.nl, q.nv);
  DenseCholeskySolver l(q.nz, q.nl, q.nv);
  FullFeasibility f(q.nz, q.nl, q.nv);
  const int mask = int(s.Below(256));
  c.Note("missing components: %d", mask);
  c.nontrivial = mask != 0;
  std::string got;
  try {
    Alg alg(mask & 1 ? nullptr : &a, mask & 2 ? nullptr : &b,
            mask & 4 ? nullptr : &d, mask & 8 ? nullptr : &e,
            mask & 16 ? nullptr : &r, mask & 32 ? nullptr : &t,
            mask & 64 ? nullptr : &l, mask & 128 ? nullptr : &f);
    got = "";
  } catch (const std::runtime_error&) {
    got = "runtime_error";
  } catch (const std::exception&) {
    got = "other";
  }
  VF_CHECK(got == (mask ? "runtime_error" : ""),
           "construction with missing components %d: '%s'", mask, got.c_str());
}
}  // namespace
namespace vf {
std::vector<Property> kProperties = {{"history", History, 60000, 800000},
                                     {"null", Null, 3000, 20000}};
}
