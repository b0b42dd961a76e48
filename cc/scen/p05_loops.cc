// stream.for / stream.while (returns and yields), stream.reduce,
// stream.reduce_concat and stream.reduce_stack against a sequential loop.
#include <algorithm>

#include "common.h"
#include "koladata/functor/parallel/stream_for.h"
#include "koladata/functor/parallel/stream_reduce.h"
#include "koladata/functor/parallel/stream_reduce_stack_or_concat.h"
#include "koladata/functor/parallel/stream_while.h"
#include "pipeline.h"

namespace sim {
namespace {

using koladata::DataSlice;

// A condition value has schema MASK or OBJECT.
auto CondSchema() {
  return Pick(3) == 2 ? koladata::schema::kObject : koladata::schema::kMask;
}
DataSlice True() { return DataSlice::Item(koladata::internal::DataItem(arolla::Unit{}), CondSchema()); }
DataSlice False() { return DataSlice::Item(koladata::internal::DataItem(), CondSchema()); }

// What a call of the body or finalize functor does.
struct Step {
  int fail = 0;           // 0 fine, 1 error, 2 unknown variable, 3 wrong type, 4 not a namedtuple
  bool set_acc = false;   // updates `acc`
  bool set_cnt = false;   // updates `cnt`
  bool set_out = false;   // updates `returns` / yields
  int order = 0;
};
// What a call of the condition functor does.
enum Cond { kTrue, kFalse, kTrueStream, kFalseStream, kLateTrue, kLateFalse, kEmptyStream,
            kErrorStream, kDroppedStream, kCondError, kWrongValue, kWrongType, kWrongStream };
struct Plan {
  bool has_cond = false, has_final = false, yields = false, is_while = false;
  std::vector<Step> body;
  std::vector<Cond> cond;
  Step final;
  // Observed calls.
  size_t nbody = 0, ncond = 0, nfinal = 0;
  int running = 0;
  std::vector<int64_t> got_items;
};

Step RandomStep(bool may_fail) {
  Step s;
  s.set_acc = Pick(2) == 0;
  s.set_cnt = Pick(3) == 1;
  s.set_out = Pick(2) == 0;
  s.order = Pick(2);
  if (may_fail && Chance(1, 16)) {
    s.fail = 1 + Pick(4);
    vsim::Count("functor-error");
  }
  return s;
}
Cond RandomCond(bool may_fail) {
  int k = Pick(12);
  if (k <= 5) return kTrue;
  if (k <= 7) return kTrueStream;
  if (k <= 9) return kLateTrue;
  if (k == 10) return Pick(3) == 0 ? kFalse : Pick(2) ? kFalseStream : kLateFalse;
  if (!may_fail || Chance(1, 2)) return kTrue;
  vsim::Count("condition-error");
  return (Cond)(kEmptyStream + Pick(7));
}

// The model of the variables.
struct Model {
  int64_t acc = 5, cnt = 7, out = 3;
  bool out_set = false;
};
// Applies a step; `item` is 0 for while loops and finalizers.
void Apply(const Step& s, int64_t item, Model& m) {
  int64_t acc = m.acc, cnt = m.cnt;
  if (s.set_acc) m.acc = (acc * 3 + item) % 10007;
  if (s.set_cnt) m.cnt = (cnt + acc + 1) % 10007;
  m.out_set = s.set_out;
  if (s.set_out) m.out = (acc * 7 + cnt + item) % 10007;
}

TypedValue RunStep(const Step& s, int64_t item, int64_t acc, int64_t cnt, const std::string& out_name) {
  Model m{acc, cnt};
  Apply(s, item, m);
  std::vector<std::string> names;
  std::vector<TypedValue> vals;
  auto add = [&](const char* n, int64_t v) {
    names.push_back(n);
    vals.push_back(MakeTok(v));
  };
  if (s.set_out && s.order) add(out_name.c_str(), m.out);
  if (s.set_cnt) add("cnt", m.cnt);
  if (s.set_acc) add("acc", m.acc);
  if (s.set_out && !s.order) add(out_name.c_str(), m.out);
  if (s.fail == 2) add("bogus", 1);
  if (s.fail == 3) {
    names.push_back(s.set_acc ? "acc2" : "acc");
    vals.push_back(TypedValue::FromValue(Tok1(1)));
  }
  std::vector<TypedRef> refs;
  for (auto& v : vals) refs.push_back(v.AsRef());
  auto r = arolla::MakeNamedTuple(names, refs);
  if (!r.ok()) Violation("harness", "cannot make a namedtuple");
  return *r;
}

using Functor = std::function<absl::StatusOr<TypedValue>(absl::Span<const TypedRef>, absl::Span<const std::string>)>;

struct Inside {
  explicit Inside(Plan& p) : p(p) {
    vsim::NoPreempt np;
    if (p.running++) Violation("overlapping-calls", "two functors of a loop run at the same time");
  }
  ~Inside() { --p.running; }
  Plan& p;
};

// Finds a variable; checks the names and values that the loop passes.
int64_t Var(absl::Span<const TypedRef> args, absl::Span<const std::string> names, const char* name) {
  size_t off = args.size() - names.size();
  for (size_t i = 0; i < names.size(); ++i) {
    if (names[i] == name) return GetTok(args[off + i]);
  }
  Violation("missing-variable", "the functor did not get the variable '%s'", name);
}
void CheckNames(absl::Span<const std::string> names, bool yields, const char* who) {
  size_t want = yields ? 2 : 3;
  if (names.size() != want) Violation("wrong-variables", "the %s got %zu variables", who, names.size());
}

void P05() {
  enum { kForReturns, kForYields, kWhileReturns, kWhileYields };
  auto plan = std::make_shared<Plan>();
  Exec ex = MakeExec();
  int op = Pick(4);
  plan->yields = op == kForYields || op == kWhileYields;
  plan->is_while = op == kWhileReturns || op == kWhileYields;
  plan->has_cond = plan->is_while || Pick(3) != 0;
  plan->has_final = !plan->is_while && Pick(2) == 0;
  Source src;
  if (!plan->is_while) {
    SourceOptions so;
    so.max_items = 7;
    src = MakeSource(so);
  }
  size_t limit = plan->is_while ? 1 + Pick(6) : src.vals.size();
  for (size_t i = 0; i < limit; ++i) {
    plan->body.push_back(RandomStep(true));
    plan->cond.push_back(RandomCond(true));
  }
  plan->cond.push_back(plan->is_while ? Pick(2) ? kFalse : kLateFalse : RandomCond(true));
  plan->final = RandomStep(true);
  const std::string out_name = plan->yields ? "gen" : "returns";

  auto values = [plan](absl::Span<const TypedRef> args, absl::Span<const std::string> names, const char* who) {
    CheckNames(names, plan->yields, who);
    return std::pair(Var(args, names, "acc"), Var(args, names, "cnt"));
  };
  auto run_step = [out_name](const Step& s, int64_t item, int64_t acc, int64_t cnt, int64_t salt) -> absl::StatusOr<TypedValue> {
    if (s.fail == 1) return SomeError(salt);
    if (s.fail == 4) return MakeTok(salt);
    if (Pick(4) == 0) Pause();
    return RunStep(s, item, acc, cnt, out_name);
  };
  Functor body = [plan, values, run_step, p = Probe()](absl::Span<const TypedRef> args, absl::Span<const std::string> names) -> absl::StatusOr<TypedValue> {
    Inside in(*plan);
    auto [acc, cnt] = values(args, names, "body");
    size_t i = plan->nbody++;
    int64_t item = 0;
    if (!plan->is_while) {
      if (args.size() != names.size() + 1) Violation("wrong-variables", "the body got %zu arguments", args.size());
      item = GetTok(args[0]);
      plan->got_items.push_back(item);
    }
    if (i >= plan->body.size()) Violation("extra-call", "the body was called %zu times", i + 1);
    auto r = run_step(plan->body[i], item, acc, cnt, 3000 + i);
    if (!plan->is_while && GetTok(args[0]) != item) Violation("ref-changed", "the item changed during the call");
    return r;
  };
  Functor final = [plan, values, run_step, p = Probe()](absl::Span<const TypedRef> args, absl::Span<const std::string> names) -> absl::StatusOr<TypedValue> {
    Inside in(*plan);
    auto [acc, cnt] = values(args, names, "finalizer");
    if (plan->nfinal++) Violation("extra-call", "the finalizer was called twice");
    return run_step(plan->final, 0, acc, cnt, 4000);
  };
  Functor cond = [plan, values, p = Probe()](absl::Span<const TypedRef> args, absl::Span<const std::string> names) -> absl::StatusOr<TypedValue> {
    Inside in(*plan);
    values(args, names, "condition");
    size_t i = plan->ncond++;
    if (i >= plan->cond.size()) Violation("extra-call", "the condition was called %zu times", i + 1);
    Cond c = plan->cond[i];
    switch (c) {
      case kTrue: return TypedValue::FromValue(True());
      case kFalse: return TypedValue::FromValue(False());
      case kCondError: return SomeError(5000 + i);
      case kWrongValue: return TypedValue::FromValue(DataSlice::CreatePrimitive(int64_t{1}));
      case kWrongType: return MakeTok(1);
      case kWrongStream: {
        auto [s, w] = MakeStream(GetQType<Tok>());
        w->Write(MakeTok(1).AsRef());
        return MakeStreamQValue(s);
      }
      default: break;
    }
    auto [s, w] = MakeStream(GetQType<DataSlice>());
    auto fill = [c, i](StreamWriter& w) {
      auto write = [&](DataSlice d) { w.Write(TypedRef::FromValue(d)); };
      if (c == kTrueStream || c == kLateTrue) write(True());
      if (c == kFalseStream || c == kLateFalse) write(False());
      if (c == kErrorStream) {
        std::move(w).Close(SomeError(6000 + i));
      } else if (c != kDroppedStream && Pick(2) == 0) {
        std::move(w).Close();
      } else if (c == kEmptyStream) {
        std::move(w).Close();
      }
    };
    if (c == kTrueStream || c == kFalseStream || (c != kLateTrue && c != kLateFalse && Pick(2))) {
      fill(*w);
      w.reset();
    } else {
      vsim::Spawn([fill, w = std::shared_ptr<StreamWriter>(std::move(w))]() mutable {
        if (Pick(2)) Pause();
        fill(*w);
        w.reset();
      }, ThreadName("cond", i));
    }
    return MakeStreamQValue(s);
  };

  // The sequential loop.
  std::vector<int64_t> want;
  End end;
  bool exact_message = true;
  size_t want_items = 0;
  {
    Model m;
    if (plan->yields) want.push_back(m.out);
    auto fail = [&](absl::Status s) { end = ToEnd(s); };
    auto bad = [&] {
      end = ToEnd(absl::InvalidArgumentError(""));
      exact_message = false;
    };
    auto step = [&](const Step& s, int64_t item, int64_t salt) {
      if (s.fail == 1) return fail(SomeError(salt));
      if (s.fail) return bad();
      Apply(s, item, m);
      if (plan->yields && m.out_set) want.push_back(m.out);
    };
    size_t i = 0;
    for (;; ++i) {
      if (plan->has_cond) {
        Cond c = plan->cond[i];
        if (c == kFalse || c == kFalseStream || c == kLateFalse) {
          end = OkEnd();
          break;
        }
        if (c == kErrorStream) fail(SomeError(6000 + i));
        if (c == kDroppedStream) fail(absl::CancelledError("orphaned"));
        if (c == kCondError) fail(SomeError(5000 + i));
        if (c == kEmptyStream || c == kWrongValue || c == kWrongType || c == kWrongStream) bad();
        if (end.closed) break;
      }
      if (!plan->is_while && i == src.vals.size()) {
        if (!src.end.ok()) {
          end = src.end;
          break;
        }
        if (plan->has_final) step(plan->final, 0, 4000);
        if (!end.closed) end = OkEnd();
        break;
      }
      want_items = i + 1;
      step(plan->body[i], plan->is_while ? 0 : src.vals[i], 3000 + i);
      if (end.closed) break;
    }
    if (!plan->yields && end.ok()) want.push_back(m.out);
  }

  StreamPtr out;
  {
    auto acc = MakeTok(5), cnt = MakeTok(7), initial = MakeTok(3);
    auto state = arolla::MakeNamedTuple(std::vector<std::string>{"acc", "cnt"}, std::vector<TypedRef>{acc.AsRef(), cnt.AsRef()});
    absl::StatusOr<StreamPtr> r = absl::UnknownError("");
    using FF = StreamForFunctor;
    using WF = StreamWhileFunctor;
    FF f = plan->has_final ? FF(std::move(final)) : FF();
    FF c = plan->has_cond && !plan->is_while ? FF(std::move(cond)) : FF();
    if (op == kForReturns) r = StreamForReturns(ex.ptr, src.stream, FF(std::move(body)), std::move(f), std::move(c), initial.AsRef(), state->AsRef());
    if (op == kForYields) r = StreamForYields(ex.ptr, src.stream, FF(std::move(body)), std::move(f), std::move(c), "gen", initial.AsRef(), state->AsRef());
    if (op == kWhileReturns) r = StreamWhileReturns(ex.ptr, WF(std::move(cond)), WF(std::move(body)), initial.AsRef(), state->AsRef());
    if (op == kWhileYields) r = StreamWhileYields(ex.ptr, WF(std::move(cond)), WF(std::move(body)), "gen", initial.AsRef(), state->AsRef());
    if (!r.ok()) Violation("wrong-end", "the operator failed: %s", std::string(r.status().message()).c_str());
    out = *std::move(r);
  }
  if (Pick(2)) src.stream.reset();
  auto read = SpawnReader(out, "reader");
  out.reset();
  body = nullptr;
  cond = nullptr;
  final = nullptr;
  vsim::Quiesce();
  src.stream.reset();
  static const char* kNames[] = {"for_returns", "for_yields", "while_returns", "while_yields"};
  if (read->vals != want) Violation("wrong-items", "%s gave %s %s, a sequential loop gives %s %s", kNames[op], Str(read->vals).c_str(), Str(read->end).c_str(), Str(want).c_str(), Str(end).c_str());
  if (exact_message ? !(read->end == end) : read->end.closed != end.closed || read->end.code != end.code) {
    Violation("wrong-end", "%s ended with %s, a sequential loop ends with %s", kNames[op], Str(read->end).c_str(), Str(end).c_str());
  }
  if (plan->nbody != want_items) Violation("wrong-calls", "%s called the body %zu times, not %zu", kNames[op], plan->nbody, want_items);
  for (size_t i = 0; i < plan->got_items.size(); ++i) {
    if (plan->got_items[i] != src.vals[i]) Violation("wrong-items", "%s gave the body item %ld instead of %ld", kNames[op], (long)plan->got_items[i], (long)src.vals[i]);
  }
  Finish(ex);
}
vsim::Scenario s("loops", P05);

void Reduce() {
  Exec ex = MakeExec();
  int op = Pick(3);
  SourceOptions so;
  so.max_items = 7;
  int64_t rank = op ? 1 + Pick(2) : 0;
  std::vector<int64_t> ranks;
  if (op) {
    so.qtype = GetQType<DataSlice>();
    int n = Pick(6);
    for (int i = 0; i < n; ++i) {
      int64_t r = rank;
      if (Chance(1, 16)) r = rank == 1 || Pick(2) == 0 ? rank + 1 : rank - 1;
      ranks.push_back(r);
      so.items.push_back(TypedValue::FromValue(DataSlice::List({i * 10 + 1, i * 10 + 2}, r)));
    }
    if (n == 0) op = 0;
  }
  if (op == 0) {
    so.qtype = nullptr;
    so.items.clear();
  }
  Source src = MakeSource(so);
  so.items.clear();
  std::vector<int64_t> want;
  End end = src.end;
  StreamPtr out;
  auto calls = std::make_shared<int>(0);
  size_t bad_at = 1000;
  int bad = 0;
  if (op == 0) {
    if (Chance(1, 6)) {
      bad_at = Pick(7);
      bad = 1 + Pick(2);
      vsim::Count("functor-error");
    }
    int64_t v = 1;
    size_t i = 0;
    for (; i < src.vals.size(); ++i) {
      if (i == bad_at) break;
      v = (v * 31 + src.vals[i]) % 100003;
    }
    if (i < src.vals.size()) end = bad == 1 ? ToEnd(SomeError(77)) : ToEnd(absl::InvalidArgumentError(""));
    if (end.ok()) want.push_back(v);
    auto vals = src.vals;
    out = StreamReduce(ex.ptr, MakeTok(1), src.stream, [calls, bad_at, bad, vals, p = Probe()](TypedRef a, TypedRef b) -> absl::StatusOr<TypedValue> {
      int i;
      {
        vsim::NoPreempt np;
        i = (*calls)++;
      }
      if (i >= (int)vals.size() || GetTok(b) != vals[i]) Violation("wrong-items", "reduce called the functor with item %ld at step %d", (long)GetTok(b), i);
      if (Pick(4) == 0) Pause();
      if (i == (int)bad_at) {
        if (bad == 1) return SomeError(77);
        return TypedValue::FromValue(Tok1(1));
      }
      return MakeTok((GetTok(a) * 31 + GetTok(b)) % 100003);
    });
  } else {
    std::vector<int64_t> all = {-1, -2};
    bool mismatch = false;
    for (size_t i = 0; i < src.vals.size(); ++i) {
      if (ranks[i] != rank) {
        mismatch = true;
        break;
      }
      all.push_back(i * 10 + 1);
      all.push_back(i * 10 + 2);
    }
    if (mismatch) {
      end = ToEnd(absl::InvalidArgumentError(""));
      bad = 2;
    }
    if (end.ok()) want = all;
    auto r = op == 1 ? StreamReduceConcat(ex.ptr, 1, DataSlice::List({-1, -2}, rank), src.stream)
                     : StreamReduceStack(ex.ptr, 0, DataSlice::List({-1, -2}, rank), src.stream);
    if (!r.ok()) Violation("wrong-end", "the operator failed: %s", std::string(r.status().message()).c_str());
    out = *std::move(r);
  }
  if (Pick(2)) src.stream.reset();
  Read got;
  auto all = std::make_shared<std::vector<int64_t>>();
  auto got_rank = std::make_shared<int64_t>(-1);
  auto read = std::make_shared<Read>();
  if (op) {
    read->get = [](TypedRef) { return 1; };
    read->on_item = [all, got_rank](TypedRef r) {
      *all = r.UnsafeAs<DataSlice>().list();
      *got_rank = r.UnsafeAs<DataSlice>().GetShape().rank();
    };
  }
  vsim::Spawn([read, out]() mutable {
    auto reader = out->MakeReader();
    out.reset();
    ReadAll(std::move(reader), *read);
  }, "reader");
  out.reset();
  vsim::Quiesce();
  src.stream.reset();
  const char* name = op == 0 ? "reduce" : op == 1 ? "reduce_concat" : "reduce_stack";
  if (op) {
    if (read->vals.size() != (end.ok() ? 1 : 0)) Violation("wrong-items", "%s gave %zu items, then %s", name, read->vals.size(), Str(read->end).c_str());
    if (end.ok() && (*all != want || *got_rank != rank + (op == 2))) Violation("wrong-items", "%s gave %s, expected %s", name, Str(*all).c_str(), Str(want).c_str());
  } else if (read->vals != want) {
    Violation("wrong-items", "%s gave %s, expected %s", name, Str(read->vals).c_str(), Str(want).c_str());
  }
  if (bad == 2 && !end.ok() && end.msg.empty() ? read->end.code != end.code : !(read->end == end)) {
    Violation("wrong-end", "%s ended with %s, expected %s", name, Str(read->end).c_str(), Str(end).c_str());
  }
  Finish(ex);
}
vsim::Scenario s2("reduce", Reduce);

}  // namespace
}  // namespace sim
