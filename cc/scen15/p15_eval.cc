// Evaluation of expressions and operators by threads of Python and of C++ that
// share the caches of transformed and compiled expressions. Oracle: every call
// gives what evaluating its own expression with its own inputs gives.
#include "koladata/expr/expr_eval.h"
#include "ops15.h"
#include "py/koladata/expr/py_expr_eval.h"

namespace world15 {
namespace {
using namespace ops15;  // NOLINT
PyObjectPtr PyVal(const Val& v) { return PyObjectPtr::Own(arolla::python::WrapAsPyQValue(Make(v))); }
PyObjectPtr PyExpr(ExprNodePtr e) { return PyObjectPtr::Own(arolla::python::WrapAsPyExpr(std::move(e))); }
minipy::Result EvalExpr(ExprNodePtr node, const Inputs& in) {
  auto e = PyExpr(std::move(node));
  std::vector<PyObjectPtr> values;
  Kwargs kw;
  for (auto& [n, v] : in) {
    values.push_back(PyVal(v));
    kw.push_back({n.c_str(), values.back().get()});
  }
  return CallFunction(koladata::python::PyEvalExpr, {e.get()}, kw);
}
PyObject* EvalNested(int64_t n) {
  Tree x, one, t;
  x.what = Tree::kI;
  x.name = "x";
  one.lit.n = 1;
  t.what = Tree::kOp;
  t.name = "add";
  t.kids = {x, one};
  auto r = EvalExpr(Build(t), {{"x", {kInt, n, ""}}});
  if (r.ok()) return r.value.release();
  arolla::python::PyErr_RestoreRaisedException(std::move(r.exc));
  return nullptr;
}
// ---- the calls ---------------------------------------------------------------------
struct World {
  std::vector<Tree> trees;
  const Tree& Any() const { return trees[Pick(trees.size())]; }
};
// An operator called with values, or with values and expressions.
void EvalOp(const World& w, const Caller& c) {
  const char* ops[] = {"add", "add", "box", "unbox", "fail", "pyfail", "executor", "wait", "rand", "call"};
  bool bind = Pick(2);
  Tree t;
  t.what = Tree::kOp;
  t.name = ops[Pick(10)];
  std::vector<PyObjectPtr> objs;
  objs.push_back(PyObjectPtr::Own(arolla::python::WrapAsPyOperator(TheOps().by_name.at(t.name))));
  bool exprs = false;
  Kind k = t.name == "unbox" ? kBox : t.name == "add" && Pick(2) ? kText : kInt;
  for (int i = t.name == "rand" ? 0 : t.name == "add" ? 2 : 1; i > 0; --i) {
    if (Chance(1, 6)) {
      t.kids.push_back(w.Any());
      exprs = true;
      objs.push_back(PyExpr(Build(t.kids.back())));
    } else {
      Tree l;
      l.lit = AnyVal();
      if (!Chance(1, 6)) l.lit = k == kText ? Val{k, 0, std::to_string(Pick(5))} : Val{k, Pick(6), ""};
      t.kids.push_back(l);
      objs.push_back(PyVal(l.lit));
    }
  }
  std::vector<PyObject*> args;
  for (auto& o : objs) args.push_back(o.get());
  int rands = t_rands;
  auto r = CallFunction(bind ? koladata::python::PyEvalOrBindOp : koladata::python::PyEvalOp, args);
  const char* what = bind ? "eval_or_bind_op()" : "eval_op()";
  if (!exprs) {
    Check(Reference(t, {}, {}, c), r, rands, what);
  } else if (!bind) {
    CheckTypeError(r, "eval_op() of an expression");
  } else {
    if (!r.ok()) Violation("wrong-error", "eval_or_bind_op() raised %s", Repr(r.exc.get()).c_str());
    auto e = arolla::python::UnwrapPyExpr(r.value.get());
    if (!e) Violation("wrong-result", "eval_or_bind_op() of an expression gave a value");
    if (t.name != "rand" && e->fingerprint() != Build(t)->fingerprint()) Violation("wrong-result", "eval_or_bind_op() built another expression");
    Inputs in = AnyInputs(false);
    rands = t_rands;
    Check(Reference(t, in, {}, c), EvalExpr(e, in), rands, "eval() of what eval_or_bind_op() built");
  }
}
void PyStep(const World& w, const Caller& c) {
  Tick();
  switch (Pick(16)) {
    case 0: {
      vsim::Count("clear");
      auto r = CallRaw([] { return koladata::python::PyClearCompilationCache(nullptr, nullptr); }, "clear");
      if (r.value.get() != Py_None) Violation("wrong-result", "clearing the caches did not return None");
      break;
    }
    case 1: {
      auto r = CallRaw([] { return koladata::python::NewNonDeterministicToken(nullptr, nullptr); }, "token");
      auto e = r.ok() ? arolla::python::UnwrapPyExpr(r.value.get()) : nullptr;
      if (!e || e->qtype() != TypeFor(kToken)) Violation("wrong-result", "no token");
      break;
    }
    case 2: {
      auto v = PyVal({kInt, 1, ""});
      auto e = PyExpr(Build(w.Any()));
      auto num = PyObjectPtr::Own(PyLong_FromLong(1));
      switch (Pick(5)) {
        case 0: CheckTypeError(CallFunction(koladata::python::PyEvalExpr, {v.get()}), "eval() of a value"); break;
        case 1: CheckTypeError(CallFunction(koladata::python::PyEvalExpr, {}), "eval() of nothing"); break;
        case 2: CheckTypeError(CallFunction(koladata::python::PyEvalExpr, {e.get()}, {{"x", v.get()}, {"y", num.get()}}), "eval() with an input that is no QValue"); break;
        case 3: CheckTypeError(CallFunction(Pick(2) ? koladata::python::PyEvalOp : koladata::python::PyEvalOrBindOp, {}), "eval_op() of nothing"); break;
        default: CheckTypeError(CallFunction(Pick(2) ? koladata::python::PyEvalOp : koladata::python::PyEvalOrBindOp, {v.get(), v.get()}), "eval_op() of a value");
      }
      break;
    }
    case 3: case 4: case 5: case 6: case 7: EvalOp(w, c); break;
    default: {
      const Tree& t = w.Any();
      Inputs in = AnyInputs(false);
      int rands = t_rands;
      Check(Reference(t, in, {}, c), EvalExpr(Build(t), in), rands, "eval()");
    }
  }
}
std::vector<std::pair<std::string, TypedRef>> Refer(const Inputs& in, std::vector<TypedValue>& keep) {
  keep.reserve(in.size());
  std::vector<std::pair<std::string, TypedRef>> r;
  for (auto& [n, v] : in) {
    keep.push_back(Make(v));
    r.push_back({n, keep.back().AsRef()});
  }
  return r;
}
void NativeStep(const World& w) {
  Caller c;
  const Tree& t = w.Any();
  vsim::Pause();
  switch (Pick(8)) {
    case 0:
      vsim::Count("clear");
      koladata::expr::ClearCompilationCache();
      return;
    case 1: case 2: {
      bool vars = Pick(2);
      auto r = vars ? koladata::expr::GetExprVariables(Build(t)) : koladata::expr::GetExprInputs(Build(t));
      Expect e;
      std::set<std::string> ni, nv, holes;
      Static(t, ni, nv, e.rejects, holes);
      if (!holes.empty()) e.rejects.push_back("placeholders: [" + Join(holes) + "]");
      e.ok = e.rejects.empty();
      auto& want = vars ? nv : ni;
      if (!r.ok()) CheckMessage(e, r.status().message(), "GetExprInputs()");
      else if (!e.ok || *r != std::vector<std::string>(want.begin(), want.end())) Violation("wrong-result", "GetExprInputs() gave %zu names, expected %s", r->size(), Join(want).c_str());
      return;
    }
    case 3: {
      Tree o;
      o.what = Tree::kOp;
      const char* ops[] = {"add", "box", "unbox", "fail", "executor"};
      o.name = ops[Pick(5)];
      Kind k = o.name == "unbox" ? kBox : o.name == "add" && Pick(2) ? kText : kInt;
      std::vector<TypedValue> keep;
      std::vector<TypedRef> refs;
      for (int i = o.name == "add" ? 2 : 1; i > 0; --i) {
        Tree l;
        l.lit = k == kText ? Val{k, 0, std::to_string(Pick(5))} : Val{k, Pick(6), ""};
        o.kids.push_back(l);
        keep.push_back(Make(l.lit));
      }
      for (auto& v : keep) refs.push_back(v.AsRef());
      auto r = koladata::expr::EvalOpWithCompilationCache(TheOps().by_name.at(o.name), refs);
      Expect e = Reference(o, {}, {}, c);
      if (r.ok()) CheckValue(e, r->AsRef(), "EvalOpWithCompilationCache()");
      else CheckMessage(e, r.status().message(), "EvalOpWithCompilationCache()");
      return;
    }
    default: {
      std::vector<TypedValue> ki, kv;
      Inputs i = AnyInputs(true), v = AnyInputs(true);
      int rands = t_rands;
      auto r = koladata::expr::EvalExprWithCompilationCache(Build(t), Refer(i, ki), Refer(v, kv));
      Expect e = Reference(t, i, v, c);
      CheckRands(e, rands, "EvalExprWithCompilationCache()");
      if (r.ok()) CheckValue(e, r->AsRef(), "EvalExprWithCompilationCache()");
      else if (e.python) { if (r.status().message() != "raised" ) Violation("wrong-error", "EvalExprWithCompilationCache() failed with %s", r.status().ToString().c_str()); }
      else CheckMessage(e, r.status().message(), "EvalExprWithCompilationCache()");
    }
  }
}

void Run() {
  arolla::g_lru_big_capacity = 1 + Pick(4);
  arolla::g_lru_hash_mask = Chance(1, 3) ? 0 : ~(size_t)0;
  TheOps();
  g_eval_nested = EvalNested;
  auto w = std::make_shared<World>();
  for (int i = 1 + Pick(3); i > 0; --i) w->trees.push_back(Grow(Pick(4)));
  int threads = 1 + Pick(3);
  for (int t = 0; t < threads; ++t) {
    bool signals = Pick(2);
    PyThread("python", [w, signals] {
      minipy::HandlesSignals(signals);
      Caller c{true, signals};
      for (int i = 1 + Pick(4); i > 0; --i) PyStep(*w, c);
    });
  }
  for (int t = threads == 1 ? 1 : Pick(3); t > 0; --t) {
    vsim::Spawn([w] {
      for (int i = 1 + Pick(4); i > 0; --i) NativeStep(*w);
    }, "native");
  }
  vsim::Quiesce();
  koladata::expr::ClearCompilationCache();
  CheckPyLeaks();
}
vsim::Scenario s_eval("pyeval", Run);
}  // namespace
}  // namespace world15
