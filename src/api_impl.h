// Shared by api_dense.cc and api_mpc.cc.
#pragma once
#include <type_traits>
#include <utility>

#include "api.h"
#include "tools/output_stream.h"

namespace vf {
class Recorder : public fbstab::OutputStream<Recorder> {
 public:
  Recorder(std::string* log, const std::function<void(const char*)>* hook)
      : log_(log), hook_(hook) {}

 protected:
  void PrintImplementation(const char* m) const {
    *log_ += m;
    if (hook_ && *hook_) (*hook_)(m);
  }
  friend class fbstab::OutputStream<Recorder>;

 private:
  std::string* log_;
  const std::function<void(const char*)>* hook_;
};

template <class S, class Make>
void MoveAssign(std::unique_ptr<S>* s, Make make, std::true_type) {
  std::unique_ptr<S> t = make();
  *t = std::move(**s);
  *s = std::move(t);
}
template <class S, class Make>
void MoveAssign(std::unique_ptr<S>*, Make, std::false_type) {}
template <class S>
void MoveConstruct(std::unique_ptr<S>* s, std::true_type) {
  std::unique_ptr<S> t(new S(std::move(**s)));
  *s = std::move(t);
}
template <class S>
void MoveConstruct(std::unique_ptr<S>*, std::false_type) {}
template <class S, class Make>
void MoveSolver(std::unique_ptr<S>* s, bool assign, Make make) {
  if (assign)
    MoveAssign(s, make, std::is_move_assignable<S>());
  else
    MoveConstruct(s, std::is_move_constructible<S>());
}

template <class V>
void Fetch(const V& x, Out* o) {
  o->z = x.z;
  o->l = x.l;
  o->v = x.v;
  o->y = x.y;
}
template <class Solver, class Data, class V>
void Call(Solver& s, const Data& d, V* x, Out* o, const Recorder& os) {
  try {
    fbstab::SolverOut so = s.Solve(d, x, os);
    o->eflag = so.eflag;
    o->residual = so.residual;
    o->initial_residual = so.initial_residual;
    o->newton = so.newton_iters;
    o->prox = so.prox_iters;
    o->time = so.solve_time;
  } catch (const Failure&) {
    throw;
  } catch (const Discard&) {
    throw;
  } catch (const std::exception& e) {
    o->threw = true;
    o->what = e.what();
    o->runtime_error = dynamic_cast<const std::runtime_error*>(&e) != nullptr;
  }
  Fetch(*x, o);
}
}  // namespace vf
