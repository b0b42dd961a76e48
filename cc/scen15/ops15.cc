#include "ops15.h"

#include "py/arolla/abc/py_aux_binding_policy.h"

namespace koladata::functor::parallel {
thread_local bool t_has_executor = false;
}

namespace world15::ops15 {
// ---- values --------------------------------------------------------------------
QTypePtr TypeFor(Kind k) {
  switch (k) {
    case kInt: return GetQType<int64_t>();
    case kText: return GetQType<Text>();
    case kBox: return GetQType<PyBox>();
    default: return GetQType<NonDeterministicToken>();
  }
}
Kind KindFor(QTypePtr t) {
  for (Kind k : {kInt, kText, kBox, kToken}) if (t == TypeFor(k)) return k;
  return kBad;
}
TypedValue Make(const Val& v) {
  switch (v.kind) {
    case kInt: return TypedValue::FromValue(v.n);
    case kText: return TypedValue::FromValue(Text(v.s));
    default: {
      AcquirePyGIL g;
      return TypedValue::FromValue(NewBox(v.n));
    }
  }
}
Val Read(TypedRef r) {
  Kind k = KindFor(r.GetType());
  if (k == kInt) return {k, r.UnsafeAs<int64_t>(), ""};
  if (k == kText) return {k, 0, std::string(r.UnsafeAs<Text>().view())};
  if (k == kBox) return {k, Unbox(r.UnsafeAs<PyBox>()), ""};
  return {k, 0, ""};
}
std::string Show(const Val& v) {
  const char* names[] = {"int ", "text ", "box ", "token ", "bad "};
  return names[v.kind] + (v.kind == kText ? v.s : std::to_string(v.n));
}
bool Same(const Val& a, const Val& b) { return a.kind == b.kind && a.n == b.n && a.s == b.s; }
int64_t IdOf(const Val& v) {
  int64_t h = v.kind;
  for (char c : v.s) h = h * 257 + c;
  return h * 100003 + v.n;
}

// ---- operators -------------------------------------------------------------------
thread_local int t_rands = 0;
PyObject* (*g_eval_nested)(int64_t n) = nullptr;
bool Takes(Types t, std::initializer_list<Kind> k) {
  if (t.size() != k.size()) return false;
  size_t i = 0;
  for (Kind x : k) if (t[i++] != TypeFor(x)) return false;
  return true;
}
TypedValue Int(int64_t n) { return TypedValue::FromValue(n); }
std::string FailMessage(int64_t n) { return (n % 4 == 1 ? "outer " : "fail ") + std::to_string(n); }


const Ops& TheOps() {
  static const Ops* ops = [] {
    vsim::NoPreempt np;
    auto* o = new Ops();
    auto def = [&](const char* name, ExprOperator::Fn fn, ExprOperator::TypeFn type, bool nd = false) {
      auto op = std::make_shared<const ExprOperator>(std::move(fn), name, type, nd);
      o->by_name[name] = op;
      return op;
    };
    QTypePtr (*int_int)(Types) = [](Types t) -> QTypePtr { return Takes(t, {kInt}) ? TypeFor(kInt) : nullptr; };
    o->input = std::make_shared<const koladata::expr::InputOperator>();
    o->token = def("token", [](Refs) -> absl::StatusOr<TypedValue> { return koladata::internal::NonDeterministicTokenValue(); },
                   [](Types t) -> QTypePtr { return Takes(t, {kToken, kInt}) ? TypeFor(kToken) : nullptr; });
    o->add = def("add", [](Refs a) -> absl::StatusOr<TypedValue> {
      Val x = Read(a[0]), y = Read(a[1]);
      return x.kind == kInt ? Int(x.n + y.n) : TypedValue::FromValue(Text(x.s + y.s));
    }, [](Types t) -> QTypePtr { return Takes(t, {kInt, kInt}) || Takes(t, {kText, kText}) ? t[0] : nullptr; });
    o->box = def("box", [](Refs a) -> absl::StatusOr<TypedValue> {
      AcquirePyGIL g;
      Tick();
      return TypedValue::FromValue(NewBox(Read(a[0]).n));
    }, [](Types t) -> QTypePtr { return Takes(t, {kInt}) ? TypeFor(kBox) : nullptr; });
    o->unbox = def("unbox", [](Refs a) -> absl::StatusOr<TypedValue> { return Int(Read(a[0]).n); },
                   [](Types t) -> QTypePtr { return Takes(t, {kBox}) ? TypeFor(kInt) : nullptr; });
    o->fail = def("fail", [](Refs a) -> absl::StatusOr<TypedValue> {
      int64_t n = Read(a[0]).n;
      if (n % 2 == 0) return Int(n);
      auto s = absl::InvalidArgumentError("fail " + std::to_string(n));
      return n % 4 == 1 ? arolla::Wrap(s, FailMessage(n), OtherPayload()) : s;
    }, int_int);
    o->pyfail = def("pyfail", [](Refs a) -> absl::StatusOr<TypedValue> {
      int64_t n = Read(a[0]).n;
      if (n % 2 == 0) return Int(n);
      AcquirePyGIL g;
      PyErr_SetString(PyExc_ValueError, ("pyfail " + std::to_string(n)).c_str());
      Tick();
      return arolla::python::StatusWithRawPyErr(absl::StatusCode::kInvalidArgument, "raised");
    }, int_int);
    o->executor = def("executor", [](Refs a) -> absl::StatusOr<TypedValue> { return Int(Read(a[0]).n + (t_has_executor ? 1 : 0)); }, int_int);
    // Waits for the end of the call's context, if it has one.
    o->wait = def("wait", [](Refs a) -> absl::StatusOr<TypedValue> {
      auto ctx = arolla::CurrentCancellationContext();
      if (!ctx) return Int(Read(a[0]).n);
      auto ev = arolla::PermanentEvent::Make();
      auto sub = ctx->Subscribe([ev] { ev->Notify(); });
      int me = vsim::CurrentThread();
      vsim::Count("ctrl-c");
      vsim::Spawn([me] {
        if (!minipy::Interrupt(me)) Violation("not-cancellable", "Ctrl-C does not reach an evaluation");
      }, "ctrl-c");
      ev->Wait();
      return arolla::CheckCancellation();
    }, int_int);
    o->rand = def("rand", [](Refs) -> absl::StatusOr<TypedValue> {
      ++t_rands;
      return Int(0);
    }, [](Types t) -> QTypePtr { return Takes(t, {kToken}) ? TypeFor(kInt) : nullptr; }, true);
    // An operator in Python that evaluates something itself.
    o->call = def("call", [](Refs a) -> absl::StatusOr<TypedValue> {
      AcquirePyGIL g;
      auto r = PyObjectPtr::Own(g_eval_nested(Read(a[0]).n));
      if (r == nullptr) return arolla::python::StatusWithRawPyErr(absl::StatusCode::kInvalidArgument, "raised");
      return arolla::python::UnsafeUnwrapPyQValue(r.get());
    }, int_int);
    o->by_name["koda_internal.to_data_slice"] = std::make_shared<const ExprOperator>([](Refs a) -> absl::StatusOr<TypedValue> {
      Val v = Read(a[0]);
      if (v.kind == kInt) return TypedValue::FromValue(*DataSlice::Create(DataItem(v.n), DataItem(koladata::schema::kInt64)));
      return TypedValue::FromValue(*DataSlice::Create(DataItem(Text(v.s)), DataItem(koladata::schema::kString)));
    }, "koda_internal.to_data_slice", [](Types t) -> QTypePtr { return Takes(t, {kInt}) || Takes(t, {kText}) ? GetQType<DataSlice>() : nullptr; });
    return o;
  }();
  return *ops;
}

// ---- expressions -------------------------------------------------------------------
ExprNodePtr Lit(const Val& v) { return arolla::expr::LiteralNode(Make(v), IdOf(v)); }
ExprNodePtr Node(ExprOperatorPtr op, std::vector<ExprNodePtr> deps, QTypePtr t) {
  return *arolla::expr::MakeOpNode(std::move(op), std::move(deps), t);
}
ExprNodePtr Token(int64_t seed) {
  return Node(TheOps().token, {arolla::expr::Leaf(koladata::expr::kNonDeterministicTokenLeafKey), Lit({kInt, seed, ""})}, TypeFor(kToken));
}
ExprNodePtr Build(const Tree& t) {
  switch (t.what) {
    case Tree::kLit: return Lit(t.lit);
    case Tree::kI: case Tree::kV: case Tree::kUnknown:
      return Node(TheOps().input, {Lit({kText, 0, t.what == Tree::kI ? "I" : t.what == Tree::kV ? "V" : "Q"}), Lit({kText, 0, t.name})});
    case Tree::kHole:
      return std::make_shared<ExprNode>(ExprNode::kPlaceholder, t.name, std::nullopt, std::nullopt, nullptr, std::vector<ExprNodePtr>(), nullptr);
    case Tree::kLeaf: return arolla::expr::Leaf(t.name);
    default: break;
  }
  std::vector<ExprNodePtr> deps;
  for (auto& k : t.kids) deps.push_back(Build(k));
  if (t.name == "rand") deps.push_back(Token(t.seed));
  return Node(TheOps().by_name.at(t.name), std::move(deps));
}
Tree Grow(int depth) {
  Tree t;
  int c = Pick(depth <= 0 ? 5 : 14);
  switch (c) {
    case 0: case 1: case 2:
      t.what = Chance(1, 4) ? Tree::kV : Tree::kI;
      t.name = kNames[Pick(3)];
      return t;
    case 3:
      t.lit.kind = (Kind)Pick(3);
      t.lit.n = Pick(5);
      if (t.lit.kind == kText) t.lit.s = std::to_string(std::exchange(t.lit.n, 0));
      return t;
    case 4:
      if (Chance(1, 3)) {
        int odd = Pick(3);
        t.what = odd == 0 ? Tree::kHole : odd == 1 ? Tree::kLeaf : Tree::kUnknown;
        t.name = odd == 1 && Pick(2) ? "I.x" : kNames[Pick(3)];
      } else {
        t.what = Tree::kI;
        t.name = "x";
      }
      return t;
  }
  const char* ops[] = {"add", "add", "box", "unbox", "fail", "pyfail", "executor", "wait", "rand"};
  t.what = Tree::kOp;
  t.name = ops[c - 5];
  if (t.name == "executor" && Pick(2)) t.name = "call";
  if (t.name == "rand") {
    t.seed = Pick(2);
    return t;
  }
  for (int i = t.name == "add" ? 2 : 1; i > 0; --i) t.kids.push_back(Grow(depth - 1));
  if (t.name == "unbox" && Pick(2)) {
    Tree b;
    b.what = Tree::kOp;
    b.name = "box";
    b.kids = std::move(t.kids);
    t.kids = {std::move(b)};
  }
  return t;
}

// ---- the reference ------------------------------------------------------------------
const Val* Given(const Inputs& in, const std::string& name) {
  for (auto& [n, v] : in) if (n == name) return &v;
  return nullptr;
}
void Static(const Tree& t, std::set<std::string>& i, std::set<std::string>& v, std::vector<std::string>& rejects, std::set<std::string>& holes) {
  switch (t.what) {
    case Tree::kI: i.insert(t.name); break;
    case Tree::kV: v.insert(t.name); break;
    case Tree::kHole: holes.insert(t.name); break;
    case Tree::kLeaf: rejects.push_back("leaves: [" + t.name); break;
    case Tree::kUnknown: rejects.push_back("container: [Q]"); break;
    default: break;
  }
  for (auto& k : t.kids) Static(k, i, v, rejects, holes);
}
Kind Infer(const Tree& t, const Inputs& i, const Inputs& v) {
  if (t.what == Tree::kLit) return t.lit.kind;
  if (t.what != Tree::kOp) return Given(t.what == Tree::kI ? i : v, t.name)->kind;
  std::vector<QTypePtr> types;
  for (auto& k : t.kids) {
    Kind x = Infer(k, i, v);
    if (x == kBad) return kBad;
    types.push_back(TypeFor(x));
  }
  if (t.name == "rand") types.push_back(TypeFor(kToken));
  QTypePtr r = TheOps().by_name.at(t.name)->type(types);
  return r ? KindFor(r) : kBad;
}
// False: the expectation is an error.
bool Compute(const Tree& t, const Inputs& i, const Inputs& v, const Caller& c, Expect& e, Val& out) {
  if (t.what == Tree::kLit) return out = t.lit, true;
  if (t.what != Tree::kOp) return out = *Given(t.what == Tree::kI ? i : v, t.name), true;
  std::vector<Val> a;
  for (auto& k : t.kids) {
    a.emplace_back();
    if (!Compute(k, i, v, c, e, a.back())) return false;
  }
  auto fail = [&](std::string m, bool python = false) {
    e.ok = false;
    e.message = std::move(m);
    e.python = python;
    return false;
  };
  if (t.name == "rand") return ++e.rands, out = {kInt, 0, ""}, true;
  out = a[0];
  if (t.name == "add") out = {a[0].kind, a[0].n + a[1].n, a[0].s + a[1].s};
  if (t.name == "box") out.kind = kBox;
  if (t.name == "unbox") out.kind = kInt;
  if (t.name == "executor" && c.executor) ++out.n;
  if (t.name == "call") ++out.n;
  if (t.name == "fail" && a[0].n % 2) return fail(FailMessage(a[0].n));
  if (t.name == "pyfail" && a[0].n % 2) return fail("pyfail " + std::to_string(a[0].n), true);
  if (t.name == "wait" && c.signals) return fail("interrupted");
  return true;
}
std::string Join(const std::set<std::string>& s) {
  std::string r;
  for (auto& x : s) r += (r.empty() ? "" : ", ") + x;
  return r;
}
Expect Reference(const Tree& t, const Inputs& i, const Inputs& v, const Caller& c) {
  Expect e;
  std::set<std::string> ni, nv, holes, missing;
  Static(t, ni, nv, e.rejects, holes);
  if (!holes.empty()) e.rejects.push_back("placeholders: [" + Join(holes) + "]");
  for (auto* in : {&i, &v}) {
    std::set<std::string> seen;
    for (auto& [n, x] : *in) {
      bool used = (in == &i ? ni : nv).count(n);
      if (used && !seen.insert(n).second) e.rejects.push_back("[" + n + "] passed twice");
    }
  }
  for (auto& n : ni) if (!Given(i, n)) missing.insert("I." + n);
  for (auto& n : nv) if (!Given(v, n)) missing.insert("V." + n);
  for (auto& m : missing) e.rejects.push_back(m);  // in any order
  if (e.rejects.empty() && Infer(t, i, v) == kBad) e.rejects.push_back("types of ");
  if (!e.rejects.empty()) {
    e.ok = false;
    return e;
  }
  Compute(t, i, v, c, e, e.v);
  return e;
}

// ---- judging ----------------------------------------------------------------------
void CheckMessage(const Expect& e, absl::string_view m, const char* what) {
  if (e.ok) Violation("wrong-result", "%s failed with %s, expected %s", what, std::string(m).c_str(), Show(e.v).c_str());
  if (e.rejects.empty()) {
    if (m != e.message) Violation("wrong-error", "%s failed with %s, expected %s", what, std::string(m).c_str(), e.message.c_str());
    return;
  }
  for (auto& r : e.rejects) if (m.find(r) != m.npos) return;
  Violation("wrong-error", "%s failed with %s, expected ...%s...", what, std::string(m).c_str(), e.rejects[0].c_str());
}
void CheckValue(const Expect& e, TypedRef r, const char* what) {
  Val v = Read(r);
  if (!e.ok) Violation("wrong-result", "%s gave %s, expected the error %s", what, Show(v).c_str(), e.rejects.empty() ? e.message.c_str() : e.rejects[0].c_str());
  if (!Same(v, e.v)) Violation("wrong-result", "%s gave %s, expected %s", what, Show(v).c_str(), Show(e.v).c_str());
}
void CheckRands(const Expect& e, int before, const char* what) {
  if (e.rejects.empty() && t_rands - before != e.rands) Violation("not-evaluated", "%s evaluated a non-deterministic operator %d times instead of %d", what, t_rands - before, e.rands);
}
void Check(const Expect& e, const minipy::Result& r, int rands, const char* what) {
  CheckRands(e, rands, what);
  if (t_has_executor) Violation("executor-leak", "%s leaves an executor behind", what);
  if (arolla::CurrentCancellationContext()) Violation("context-leak", "%s leaves a cancellation context behind", what);
  if (r.ok()) {
    if (!arolla::python::IsPyQValueInstance(r.value.get())) Violation("wrong-result", "%s gave no QValue", what);
    CheckValue(e, arolla::python::UnsafeUnwrapPyQValue(r.value.get()).AsRef(), what);
    return;
  }
  const absl::Status* s = StatusOf(r.exc.get());
  if (!e.ok && e.rejects.empty() && e.python) {
    if (s || !r.Raised(PyExc_ValueError)) Violation("wrong-error", "%s raised %s instead of the operator's exception", what, Repr(r.exc.get()).c_str());
  } else if (!s) {
    Violation("wrong-error", "%s raised %s", what, Repr(r.exc.get()).c_str());
  }
  CheckMessage(e, Message(r.exc.get()), what);
}
void CheckTypeError(const minipy::Result& r, const char* what) {
  if (!r.Raised(PyExc_TypeError)) Violation("wrong-error", "%s: %s instead of a TypeError", what, r.ok() ? "a result" : Repr(r.exc.get()).c_str());
}

Val AnyVal() {
  Kind k = Chance(1, 3) ? (Kind)(1 + Pick(2)) : kInt;
  int64_t n = Pick(6);
  return k == kText ? Val{k, 0, std::to_string(n)} : Val{k, n, ""};
}
Inputs AnyInputs(bool repeat) {
  Inputs r;
  // Most often everything, with one type.
  Val first = AnyVal();
  for (const char* n : kNames) {
    if (Chance(1, 12)) continue;
    Val v = Chance(1, 4) ? AnyVal() : first;
    if (v.kind == kText) v.s = std::to_string(Pick(6));
    else v.n = Pick(6);
    r.push_back({n, v});
    if (repeat && Chance(1, 16)) r.push_back({n, v});
  }
  if (r.size() > 1 && Pick(2)) std::swap(r[0], r[r.size() - 1]);
  return r;
}
}  // namespace world15::ops15

namespace arolla::shim_compiler {
namespace {
using namespace world15::ops15;  // NOLINT
using namespace world15;  // NOLINT
struct Compiled {
  ExprNodePtr expr;
  TypedRefsInputs inputs;
  bool safe;
  int64_t scratch = 0;  // what a model that is not safe writes to
};
absl::StatusOr<QTypePtr> Infer(const ExprNodePtr& n, const TypedRefsInputs& in) {
  if (n->is_literal()) return n->qvalue()->GetType();
  if (n->is_leaf()) {
    for (auto& [name, t] : in) if (name == n->leaf_key()) return t;
    Violation("wrong-inputs", "compiling an expression without its input %s", n->leaf_key().c_str());
  }
  if (!n->is_op()) Violation("wrong-inputs", "compiling an expression with a placeholder");
  std::vector<QTypePtr> types;
  for (auto& d : n->node_deps()) {
    auto t = Infer(d, in);
    if (!t.ok()) return t;
    types.push_back(*t);
  }
  const std::string& name = n->op()->display_name();
  if (name == "call") {  // its type is asked from Python
    AcquirePyGIL g;
    Tick();
    auto r = PyObjectPtr::Own(g_eval_nested(1));
    if (r == nullptr) Violation("wrong-error", "an evaluation within a compilation raised");
  }
  if (!n->op()->type) return absl::InternalError("the operator " + name + " cannot be compiled");
  QTypePtr r = n->op()->type(types);
  if (!r) return Wrap(absl::InvalidArgumentError("types of " + name), "unable to compile", NotePayload());
  return r;
}
absl::StatusOr<TypedValue> Eval(const ExprNodePtr& n, const TypedRefsInputs& in, absl::Span<const TypedRef> args) {
  if (n->is_literal()) return *n->qvalue();
  if (n->is_leaf()) {
    for (size_t i = 0; i < in.size(); ++i) if (in[i].first == n->leaf_key()) return TypedValue(args[i]);
  }
  std::vector<TypedValue> values;
  for (auto& d : n->node_deps()) {
    auto v = Eval(d, in, args);
    if (!v.ok()) {
      auto& name = n->op()->display_name();
      if (name == "add") return WithSourceLocation(v.status(), SourceLocationPayload{"f"});
      return v;
    }
    values.push_back(*std::move(v));
  }
  std::vector<TypedRef> refs;
  for (auto& v : values) refs.push_back(v.AsRef());
  vsim::Pause();
  auto r = n->op()->fn(refs);
  if (!r.ok()) return Wrap(r.status(), "while evaluating " + n->op()->display_name(), expr::VerboseRuntimeError{n->op()->display_name()});
  return r;
}
}  // namespace
absl::StatusOr<Fn> Compile(expr::ExprNodePtr e, TypedRefsInputs inputs, bool thread_safe) {
  vsim::Pause();
  std::set<std::string> names;
  for (auto& [n, t] : inputs) {
    if (!names.insert(n).second) Violation("wrong-inputs", "an expression is compiled with the input %s twice", n.c_str());
  }
  auto t = Infer(e, inputs);
  if (!t.ok()) return t.status();
  vsim::Pause();
  auto c = std::make_shared<Compiled>(Compiled{std::move(e), std::move(inputs), thread_safe});
  return Fn([c](absl::Span<const TypedRef> args) -> absl::StatusOr<TypedValue> {
    if (args.size() != c->inputs.size()) Violation("wrong-inputs", "a compiled expression gets %zu inputs instead of %zu", args.size(), c->inputs.size());
    for (size_t i = 0; i < args.size(); ++i) {
      if (args[i].GetType() != c->inputs[i].second || args[i].GetRawPointer() == nullptr) {
        Violation("wrong-inputs", "a compiled expression gets inputs of other types than it was compiled for");
      }
    }
    if (!c->safe) ++c->scratch;
    auto r = Eval(c->expr, c->inputs, args);
    if (!c->safe) ++c->scratch;
    if (!r.ok()) return Wrap(r.status(), "in the expression", NotePayload{"note"});
    return r;
  });
}
}  // namespace arolla::shim_compiler

namespace arolla::expr {
using namespace world15::ops15;  // NOLINT
// The operators of the packages exist; those of the tests are `TheOps`.
absl::StatusOr<ExprOperatorPtr> LookupOperator(absl::string_view name) {
  vsim::NoPreempt np;
  auto& ops = TheOps().by_name;
  auto it = ops.find(std::string(name));
  if (it != ops.end()) return it->second;
  for (const char* p : {"kd.", "core.", "koda_internal.", "namedtuple.", "test."}) {
    if (!name.starts_with(p)) continue;
    static auto* made = new std::map<std::string, ExprOperatorPtr>;
    auto& op = (*made)[std::string(name)];
    if (!op) {
      op = std::make_shared<ExprOperator>([](Refs) -> absl::StatusOr<TypedValue> { return absl::UnimplementedError("not modelled"); }, std::string(name));
    }
    return op;
  }
  return absl::NotFoundError("operator not found: " + std::string(name));
}
absl::StatusOr<ExprOperatorPtr> DecayRegisteredOperator(const ExprOperatorPtr& op) { return op; }
namespace {
ExprOperatorPtr FindOrNull(absl::string_view name) {
  auto r = LookupOperator(name);
  return r.ok() ? *r : nullptr;
}
}  // namespace
RegisteredOperator::RegisteredOperator(absl::string_view name)
    : ExprOperator([op = FindOrNull(name)](Refs a) { return op->fn(a); }, std::string(name), FindOrNull(name) ? FindOrNull(name)->type : nullptr) {}
absl::StatusOr<ExprNodePtr> CallOp(absl::string_view op, std::vector<ExprNodePtr> deps) {
  auto r = LookupOperator(op);
  if (!r.ok()) return r.status();
  return MakeOpNode(*std::move(r), std::move(deps));
}
}  // namespace arolla::expr

namespace arolla {
QTypePtr GetSequenceQType(QTypePtr value) {
  vsim::NoPreempt np;
  static auto* made = new std::map<QTypePtr, QTypePtr>;
  auto& r = (*made)[value];
  if (!r) r = new QType(QType::Args{.name = "SEQUENCE[" + std::string(value->name()) + "]", .value_qtype = value});
  return r;
}
}  // namespace arolla

namespace koladata::functor::parallel::shim_proto {
std::vector<std::string> Tokens(absl::string_view text) {
  vsim::NoPreempt np;
  std::vector<std::string> r;
  for (size_t i = 0; i < text.size();) {
    char c = text[i];
    if (isspace((unsigned char)c) || c == ':') {
      ++i;
    } else if (c == '{' || c == '}') {
      r.push_back(std::string(1, c));
      ++i;
    } else if (c == '"') {
      size_t e = text.find('"', i + 1);
      if (e == text.npos) return {"{"};
      r.push_back(std::string(text.substr(i + 1, e - i - 1)));
      i = e + 1;
    } else {
      size_t e = i;
      while (e < text.size() && (isalnum((unsigned char)text[e]) || text[e] == '_')) ++e;
      if (e == i) return {"{"};
      r.push_back(std::string(text.substr(i, e - i)));
      i = e;
    }
  }
  return r;
}
}  // namespace koladata::functor::parallel::shim_proto

namespace koladata::expr {
absl::StatusOr<arolla::expr::ExprNodePtr> GenNonDeterministicToken() {
  static int64_t seed = 100;
  vsim::NoPreempt np;
  return world15::ops15::Token(++seed);
}
}  // namespace koladata::expr

namespace arolla::python {
expr::ExprNodePtr AuxBindingPolicy::MakeLiteral(TypedValue&& v) const {
  CheckGil("MakeLiteral");
  auto val = world15::ops15::Read(v.AsRef());
  return expr::LiteralNode(std::move(v), world15::ops15::IdOf(val));
}
bool AuxBindArguments(const expr::ExprOperatorSignature& s, PyObject** args, size_t nargsf, PyObject* kwnames, std::vector<QValueOrExpr>* out, AuxBindingPolicyPtr* policy) {
  CheckGil("AuxBindArguments");
  size_t n = nargsf & ~PY_VECTORCALL_ARGUMENTS_OFFSET;
  for (size_t i = 0; i < n; ++i) {
    if (IsPyQValueInstance(args[i])) {
      out->push_back(UnsafeUnwrapPyQValue(args[i]));
    } else if (auto e = UnwrapPyExpr(args[i])) {
      out->push_back(std::move(e));
    } else {
      return false;
    }
  }
  if (s.token) out->push_back(*koladata::expr::GenNonDeterministicToken());
  *policy = std::make_shared<const AuxBindingPolicy>();
  return true;
}
}  // namespace arolla::python
