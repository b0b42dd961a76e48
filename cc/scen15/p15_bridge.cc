// Threads that share the caches of operators compiled by name and of quoted
// expressions, the registry of iterable types and the default configuration of
// parallel transformations. Oracle: as if each thread had its own.
#include <map>
#include <set>

#include "arolla/qexpr/operators.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/sequence/sequence_qtype.h"
#include "koladata/functor/parallel/transform_config_registry.h"
#include "koladata/iterables/iterable_qtype.h"
#include "koladata/operators/arolla_bridge.h"
#include "ops15.h"

namespace world15 {
namespace {
using namespace ops15;  // NOLINT
namespace parallel = koladata::functor::parallel;

DataSlice Slice(const Val& v) {
  if (v.kind == kText) return *DataSlice::Create(DataItem(Text(v.s)), DataItem(koladata::schema::kString));
  return *DataSlice::Create(DataItem(v.n), DataItem(koladata::schema::kInt64));
}
Val OfSlice(const DataSlice& s) {
  if (!s.is_item()) return {kBad};
  if (s.item().holds_value<int64_t>() && s.GetSchemaImpl() == koladata::schema::kInt64) return {kInt, s.item().value<int64_t>(), ""};
  if (s.item().holds_value<Text>() && s.GetSchemaImpl() == koladata::schema::kString) return {kText, 0, std::string(s.item().value<Text>().view())};
  return {kBad};
}
Val Plain(Kind k) { return k == kText ? Val{k, 0, std::to_string(Pick(5))} : Val{k, Pick(6), ""}; }
void CheckSlice(const Expect& e, const absl::StatusOr<DataSlice>& r, const char* what) {
  if (!r.ok()) {
    if (e.rejects.empty() || r.status().message() != "unable to compile") CheckMessage(e, r.status().message(), what);
    return;
  }
  Val v = OfSlice(*r);
  if (!e.ok || !Same(v, e.v)) Violation("wrong-result", "%s gave %s, expected %s", what, Show(v).c_str(), e.ok ? Show(e.v).c_str() : "an error");
}

struct World {
  std::vector<Tree> trees;
  std::map<QTypePtr, QTypePtr> iterables;
  std::set<std::string> extended, extending;  // the operators of the extensions
  int base = 0;  // replacements before those
  std::set<std::string> uuids;
};

// ---- operators by name ----
void ByName(bool slices) {
  const char* ops[] = {"add", "add", "add", "fail", "executor", "unbox", "nope", "wait"};
  std::string name = ops[Pick(slices ? 5 : 8)];
  Tree t;
  t.what = Tree::kOp;
  t.name = name;
  Kind k = name == "add" && Pick(2) ? kText : kInt;
  std::vector<TypedValue> keep;
  std::vector<DataSlice> items;
  for (int i = name == "add" && !Chance(1, 8) ? 2 : Chance(1, 8) ? 3 : 1; i > 0; --i) {
    Tree l;
    l.lit = Plain(Chance(1, 8) ? kText : k);
    t.kids.push_back(l);
    keep.push_back(Make(l.lit));
    items.push_back(Slice(l.lit));
  }
  std::vector<TypedRef> refs;
  for (auto& v : keep) refs.push_back(v.AsRef());
  Expect e;
  if (name == "nope") {
    e.ok = false;
    e.rejects = {"nope"};
  } else {
    e = Reference(t, {}, {}, Caller());
  }
  if (slices) {
    CheckSlice(e, koladata::ops::SimplePointwiseEval(name, std::move(items)), "SimplePointwiseEval()");
    return;
  }
  auto r = koladata::ops::EvalExpr(name, refs);
  if (r.ok()) CheckValue(e, r->AsRef(), "EvalExpr()");
  else if (e.rejects.empty() || r.status().message() != "unable to compile") CheckMessage(e, r.status().message(), "EvalExpr()");
}

// ---- quoted expressions ----
Tree GrowQuoted(int depth) {
  Tree t;
  int c = Pick(depth > 0 ? 6 : 3);
  if (c < 2) {
    t.what = Tree::kI;
    t.name = kNames[Pick(3)];
  } else if (c == 2) {
    t.lit = Plain(Pick(3) ? kInt : kText);
  } else {
    t.what = Tree::kOp;
    t.name = c == 5 ? "fail" : "add";
    for (int i = c == 5 ? 1 : 2; i > 0; --i) t.kids.push_back(GrowQuoted(depth - 1));
  }
  return t;
}
ExprNodePtr Quote(const Tree& t) {
  if (t.what == Tree::kI) return arolla::expr::Leaf(t.name);
  if (t.what == Tree::kLit) return Lit(t.lit);
  std::vector<ExprNodePtr> deps;
  for (auto& k : t.kids) deps.push_back(Quote(k));
  return Node(TheOps().by_name.at(t.name), std::move(deps));
}
void Quoted(const World& w) {
  const Tree& t = w.trees[Pick(w.trees.size())];
  Inputs in;
  Kind k = Pick(3) ? kText : kInt;
  for (const char* n : kNames) in.push_back({n, Plain(Chance(1, 6) ? (Kind)Pick(2) : k)});
  for (int i = Pick(3); i > 0; --i) std::swap(in[i - 1], in[i]);
  std::vector<DataSlice> frame = {*DataSlice::Create(DataItem(arolla::expr::ExprQuote(Quote(t))), DataItem(koladata::schema::kExpr))};
  std::vector<std::string> names;
  std::vector<TypedValue> values;
  std::vector<arolla::TypedSlot> subs;
  for (auto& [n, v] : in) {
    names.push_back(n);
    subs.push_back(arolla::TypedSlot(GetQType<DataSlice>(), frame.size()));
    frame.push_back(Slice(v));
    values.push_back(TypedValue::FromValue(frame.back()));
  }
  frame.push_back(DataSlice());
  std::vector<TypedRef> refs;
  for (auto& v : values) refs.push_back(v.AsRef());
  QTypePtr tuple = arolla::MakeNamedTuple(names, refs)->GetType();
  koladata::ops::ArollaExprEvalOperatorFamily family;
  const arolla::OperatorFamily& base = family;
  auto op = base.GetOperator({GetQType<DataSlice>(), tuple}, GetQType<DataSlice>());
  if (!op.ok()) Violation("wrong-error", "arolla_expr_eval failed with %s", op.status().ToString().c_str());
  arolla::TypedSlot out(GetQType<DataSlice>(), frame.size() - 1);
  auto bound = (*op)->Bind({arolla::TypedSlot(GetQType<DataSlice>(), 0), arolla::TypedSlot(tuple, 0, subs)}, out);
  if (!bound.ok()) Violation("wrong-error", "arolla_expr_eval failed with %s", bound.status().ToString().c_str());
  arolla::EvaluationContext ctx;
  absl::Status s = (*bound)->Run(&ctx, arolla::FramePtr(&frame));
  Expect e = Reference(t, in, {}, Caller());
  if (s.ok()) {
    CheckSlice(e, frame.back(), "arolla_expr_eval");
    return;
  }
  // The layers of explanations stay.
  if (e.ok) Violation("wrong-error", "arolla_expr_eval failed with %s, expected %s", s.ToString().c_str(), Show(e.v).c_str());
  const absl::Status* c = &s;
  for (; c; c = arolla::GetCause(*c)) {
    if (e.rejects.empty() ? c->message() == e.message : c->message().find(e.rejects[0]) != c->message().npos) return;
  }
  Violation("wrong-error", "arolla_expr_eval failed with %s, expected %s", s.ToString().c_str(), e.rejects.empty() ? e.message.c_str() : e.rejects[0].c_str());
}

// ---- registries ----
void Iterable(World& w) {
  Kind k = (Kind)Pick(4);
  QTypePtr v = TypeFor(k);
  if (Chance(1, 4)) v = arolla::GetSequenceQType(v);
  QTypePtr r = koladata::iterables::GetIterableQType(v);
  if (r == nullptr || !koladata::iterables::IsIterableQType(r) || r->value_qtype() != v || koladata::iterables::IsIterableQType(v)) {
    Violation("wrong-type", "the type of iterables of %s is %s", std::string(v->name()).c_str(), r ? std::string(r->name()).c_str() : "null");
  }
  vsim::NoPreempt np;
  auto [it, fresh] = w.iterables.emplace(v, r);
  if (it->second != r) Violation("wrong-type", "two types of iterables of %s", std::string(v->name()).c_str());
}
void Config(World& w) {
  if (Chance(2, 5)) {
    if (Chance(1, 6)) {
      auto s = parallel::ExtendDefaultParallelTransformConfig("from_op: \"test.x\" to_op");
      if (s.ok()) Violation("wrong-result", "a malformed extension was accepted");
      return;
    }
    std::string op;
    {
      vsim::NoPreempt np;
      op = "test.op" + std::to_string(w.extending.size());
      w.extending.insert(op);
      vsim::Count("extended");
    }
    auto s = parallel::ExtendDefaultParallelTransformConfig("from_op: \"" + op + "\" to_op: \"test.parallel_" + op + "\" argument_transformation { arguments: EXECUTOR keep_literal_argument_indices: 7 }");
    if (!s.ok()) Violation("wrong-error", "an extension failed with %s", s.ToString().c_str());
    vsim::NoPreempt np;
    w.extended.insert(op);
    return;
  }
  std::set<std::string> before;
  {
    vsim::NoPreempt np;
    before = w.extended;
  }
  bool allow = Pick(2);
  auto r = parallel::GetDefaultParallelTransformConfig(allow);
  if (!r.ok() || *r == nullptr) Violation("wrong-error", "no configuration: %s", r.status().ToString().c_str());
  vsim::NoPreempt np;
  const auto& c = **r;
  if (c.allow_runtime_transforms() != allow) Violation("wrong-result", "a configuration has allow_runtime_transforms=%d instead of %d", c.allow_runtime_transforms(), allow);
  if (!w.uuids.insert(c.uuid().AsString()).second) Violation("wrong-result", "two configurations have one uuid");
  size_t found = 0;
  for (auto& op : w.extending) {
    auto it = c.operator_replacements().find((*arolla::expr::LookupOperator(op))->fingerprint());
    if (it == c.operator_replacements().end()) {
      if (before.count(op)) Violation("wrong-result", "a configuration lacks the earlier extension %s", op.c_str());
      continue;
    }
    ++found;
    auto& a = it->second.argument_transformation;
    if (it->second.op == nullptr || it->second.op->display_name() != "test.parallel_" + op || a.keep_literal_argument_indices() != std::vector<int64_t>{7}) {
      Violation("wrong-result", "a configuration has a torn extension %s", op.c_str());
    }
  }
  int base = c.operator_replacements().size() - found;
  if (w.base == 0) w.base = base;
  if (base < 10 || base != w.base) Violation("wrong-result", "a configuration has %d own replacements instead of %d", base, w.base);
}

void Run() {
  arolla::g_lru_big_capacity = 1 + Pick(4);
  arolla::g_lru_hash_mask = Chance(1, 3) ? 0 : ~(size_t)0;
  TheOps();
  auto w = std::make_shared<World>();
  for (int i = 1 + Pick(2); i > 0; --i) w->trees.push_back(GrowQuoted(1 + Pick(2)));
  bool configs = Chance(1, 4);
  for (int t = 2 + Pick(2); t > 0; --t) {
    vsim::Spawn([w, configs] {
      for (int i = 1 + Pick(5); i > 0; --i) {
        vsim::Pause();
        if (configs && Pick(2)) {
          Config(*w);
          continue;
        }
        switch (Pick(12)) {
          case 0:
            vsim::Count("clear");
            koladata::ops::ClearCompilationCache();
            break;
          case 1: case 2: Iterable(*w); break;
          case 3: case 4: ByName(true); break;
          case 5: case 6: case 7: case 8: Quoted(*w); break;
          default: ByName(false);
        }
      }
    }, "native");
  }
  vsim::Quiesce();
  koladata::ops::ClearCompilationCache();
  CheckPyLeaks();
}
vsim::Scenario s_bridge("pybridge", Run);
}  // namespace
}  // namespace world15
