// Pipelines of operators under cancellation, abandonment of the output,
// executors that discard tasks, and inputs that never end.
#include <algorithm>
#include <map>

#include "absl/synchronization/notification.h"
#include "arolla/expr/expr_operator.h"
#include "common.h"
#include "koladata/functor/parallel/async_eval.h"
#include "koladata/functor/parallel/stream_call.h"
#include "koladata/functor/parallel/stream_for.h"
#include "koladata/functor/parallel/stream_map.h"
#include "koladata/functor/parallel/stream_reduce.h"
#include "koladata/functor/parallel/stream_reduce_stack_or_concat.h"
#include "koladata/functor/parallel/stream_while.h"
#include "pipeline.h"

namespace sim {
namespace {

using koladata::DataSlice;
using Args = absl::Span<const TypedRef>;
using Names = absl::Span<const std::string>;
using Result = absl::StatusOr<TypedValue>;

struct World {
  CancellationContextPtr ctx;
  bool cancel_done = false;  // Cancel() has returned
  bool abandoned = false;    // nothing can read the output any more
  int after = 0;             // body calls of an endless loop since then
  bool stop = false;         // ends an endless loop when the check has failed
  std::vector<std::unique_ptr<StreamWriter>> held;
};
using WorldPtr = std::shared_ptr<World>;

// What an operator must produce.
struct Expect {
  std::vector<int64_t> vals;
  End end;
};

void CheckContext(const World& w) {
  auto c = arolla::CurrentCancellationContext();
  if (c != w.ctx) Violation("wrong-context", "a functor does not run under the caller's cancellation context");
}

TypedValue Named(std::vector<std::string> names, std::vector<TypedValue> vals) {
  std::vector<TypedRef> refs;
  for (auto& v : vals) refs.push_back(v.AsRef());
  return *arolla::MakeNamedTuple(names, refs);
}

DataSlice True() { return DataSlice::CreatePrimitive(arolla::Unit{}); }
DataSlice False() { return DataSlice::Item(koladata::internal::DataItem(), koladata::schema::kMask); }

enum Op { kMap, kForYields, kForReturns, kReduce, kCall, kMapUnordered, kNumOps };
const char* const kOps[] = {"map", "for_yields", "for_returns", "reduce", "call", "map_unordered"};

// Adds one operator; `fail_at`: the functor fails on the item of this index.
StreamPtr AddOp(Op op, const WorldPtr& w, const Exec& ex, StreamPtr in, Expect& e, int fail_at) {
  const int64_t k = op + 2;
  auto f = [k](int64_t v) { return (v * k + 1) % 1000003; };
  int n = e.vals.size();
  bool fails = fail_at >= 0 && fail_at < n && op != kCall;
  auto boom = SomeError(50 + op);
  // The error is met only when the input gets that far.
  std::vector<int64_t> bad;
  if (fails) bad = {e.vals[fail_at]};
  auto failing = [bad](int64_t v) { return !bad.empty() && bad[0] == v; };
  Expect r;
  switch (op) {
    case kMap:
    case kMapUnordered: {
      for (int i = 0; i < (fails ? fail_at : n); ++i) r.vals.push_back(f(e.vals[i]));
      r.end = fails ? ToEnd(boom) : e.end;
      if (op == kMapUnordered && fails) {
        r.vals.clear();
        for (int i = 0; i < n; ++i) if (i != fail_at) r.vals.push_back(f(e.vals[i]));
      }
      auto fn = [w, f, failing, boom, p = Probe()](TypedRef v) -> Result {
        CheckContext(*w);
        if (Pick(4) == 0) Pause();
        if (failing(GetTok(v))) return boom;
        return MakeTok(f(GetTok(v)));
      };
      e = r;
      if (op == kMap) return StreamMap(ex.ptr, in, GetQType<Tok>(), std::move(fn));
      return StreamMapUnordered(ex.ptr, in, GetQType<Tok>(), std::move(fn));
    }
    case kForYields:
    case kForReturns: {
      int64_t acc = 3;
      bool yields = op == kForYields;
      if (yields) r.vals.push_back(1);
      for (int i = 0; i < (fails ? fail_at : n); ++i) {
        acc = (acc * 7 + e.vals[i]) % 1000003;
        if (yields) r.vals.push_back(acc);
      }
      r.end = fails ? ToEnd(boom) : e.end;
      if (!yields && r.end.ok()) r.vals.push_back(acc);
      auto fn = [w, failing, boom, yields, p = Probe()](Args a, Names names) -> Result {
        CheckContext(*w);
        if (Pick(4) == 0) Pause();
        int64_t v = GetTok(a[0]), acc = GetTok(a[1]);
        if (failing(v)) return boom;
        acc = (acc * 7 + v) % 1000003;
        return Named({"acc", yields ? "gen" : "returns"}, {MakeTok(acc), MakeTok(acc)});
      };
      e = r;
      auto one = MakeTok(yields ? 1 : 3);
      auto state = Named({"acc"}, {MakeTok(3)});
      auto s = yields ? StreamForYields(ex.ptr, in, std::move(fn), nullptr, nullptr, "gen", one.AsRef(), state.AsRef())
                      : StreamForReturns(ex.ptr, in, std::move(fn), nullptr, nullptr, one.AsRef(), state.AsRef());
      return *std::move(s);
    }
    case kReduce: {
      int64_t acc = 1;
      for (int i = 0; i < (fails ? fail_at : n); ++i) acc = (acc * 31 + e.vals[i]) % 1000003;
      r.end = fails ? ToEnd(boom) : e.end;
      if (r.end.ok()) r.vals = {acc};
      e = r;
      return StreamReduce(ex.ptr, MakeTok(1), in, [w, failing, boom, p = Probe()](TypedRef a, TypedRef b) -> Result {
        CheckContext(*w);
        if (Pick(4) == 0) Pause();
        if (failing(GetTok(b))) return boom;
        return MakeTok((GetTok(a) * 31 + GetTok(b)) % 1000003);
      });
    }
    default: {  // kCall: passes the stream through
      auto arg = MakeStreamQValue(in);
      auto s = StreamCall(ex.ptr, [w, p = Probe()](Args a) -> Result {
        CheckContext(*w);
        if (Pick(4) == 0) Pause();
        return TypedValue(a[0]);
      }, GetQType<Tok>(), {arg.AsRef()});
      return *std::move(s);
    }
  }
}

void P07() {
  auto w = std::make_shared<World>();
  // The kinds of trouble.
  int trouble = Pick(4);  // 0 cancel, 1 discard, 2 abandon, 3 mix
  bool cancel = trouble == 0 || (trouble == 3 && Pick(2));
  bool discard = trouble == 1 || (trouble == 3 && Pick(2));
  bool abandon = trouble == 2 || (trouble == 3 && Pick(2));
  Exec ex = MakeExec(discard);
  absl::Status why = SomeError(4 + Pick(3) * 1);
  if (cancel) vsim::Count("cancelled");
  if (cancel || Pick(2)) w->ctx = CancellationContext::Make();
  bool explicit_ctx = w->ctx != nullptr;
  auto start_cancel = [&] {
    vsim::Spawn([w, why] {
      int n = Pick(8);
      for (int i = 0; i < n; ++i) Pause();
      w->ctx->Cancel(why);
      vsim::NoPreempt np;
      w->cancel_done = true;
    }, "canceller");
  };
  bool early = Pick(2);
  if (cancel && early) start_cancel();

  // The source.
  bool stuck = Chance(1, 4);
  SourceOptions so;
  so.max_items = 6;
  so.errors = !stuck;
  Expect e;
  StreamPtr s;
  if (stuck) {
    vsim::Count("input-never-ends");
    auto [stream, writer] = MakeStream(GetQType<Tok>());
    int n = Pick(4);
    for (int i = 0; i < n; ++i) {
      writer->Write(MakeTok(i + 1).AsRef());
      e.vals.push_back(i + 1);
    }
    e.end = ToEnd(absl::CancelledError("orphaned"));
    w->held.push_back(std::move(writer));
    s = stream;
  } else {
    Source src = MakeSource(so);
    e.vals = src.vals;
    e.end = src.end;
    s = src.stream;
  }
  std::string desc;
  int nops = 1 + Pick(3);
  bool unordered = false;
  bool all_calls = true;  // a call's result may outlive the call
  {
    std::optional<CancellationContext::ScopeGuard> guard;
    if (explicit_ctx) guard.emplace(w->ctx);
    for (int i = 0; i < nops; ++i) {
      Op op = (Op)Pick(i == nops - 1 ? kNumOps : kMapUnordered);
      int fail_at = Chance(1, 6) ? Pick(4) : -1;
      if (fail_at >= 0 && fail_at < (int)e.vals.size() && op != kCall) vsim::Count("functor-error");
      desc += std::string(i ? "|" : "") + kOps[op];
      unordered = op == kMapUnordered;
      all_calls &= op == kCall;
      s = AddOp(op, w, ex, s, e, fail_at);
    }
  }
  vsim::Log("pipeline %s on %s, cancel %d, abandon %d, stuck %d", desc.c_str(), ex.name, cancel, abandon, stuck);
  if (abandon) vsim::Count("abandoned");
  auto read = SpawnReader(s, "reader", abandon ? Pick(4) : -1);
  // A second observer makes sure that the end is seen.
  StreamPtr keep = abandon ? nullptr : s;
  s.reset();
  if (cancel && !early) start_cancel();
  vsim::Quiesce(stuck);

  auto check = [&](const Read& r, bool must_close) {
    auto fail = [&](const char* kind, const char* what) {
      Violation(kind, "%s: %s: got %s %s, expected %s %s", desc.c_str(), what, Str(r.vals).c_str(), Str(r.end).c_str(), Str(e.vals).c_str(), Str(e.end).c_str());
    };
    bool troubled = w->cancel_done || Discarded(ex);
    // The values.
    bool all = r.vals.size() == e.vals.size();
    if (unordered) {
      std::map<int64_t, int> left;
      for (int64_t v : e.vals) ++left[v];
      for (int64_t v : r.vals) if (--left[v] < 0) fail("wrong-items", "unexpected items");
    } else if (!IsPrefix(r.vals, e.vals)) {
      fail("wrong-items", "not the beginning of what is expected");
    }
    // The end.
    if (!r.end.closed) {
      if (must_close) fail("not-closed", "the output was never closed");
      return;
    }
    bool expected_end = r.end == e.end && (all || !r.end.ok() ) ;
    if (e.end.ok() && r.end.ok() && !all) fail("truncated", "the output ended well although items are missing");
    if (!e.end.ok() && r.end.ok()) fail("error-lost", "the output ended well although the input failed");
    if (expected_end && !troubled && !all && !unordered) fail("wrong-items", "items are missing");
    if (expected_end) return;
    if (unordered && !r.end.ok() && !e.end.ok()) return;  // either error may win
    if (IsOrphaned(r.end) && troubled) return;
    if (w->cancel_done && r.end == ToEnd(why)) return;
    fail("wrong-end", "unexpected end");
  };
  // With several failures in a pipeline that ends in map_unordered, either may
  // be reported; so only its kind is checked above.
  if (!abandon) check(*read, !stuck || (cancel && w->cancel_done && !all_calls));
  if (cancel && !w->cancel_done) Violation("stuck-cancel", "Cancel() never returned");
  if (!w->held.empty()) {
    w->held.clear();
    vsim::Quiesce();
    if (keep) check(ReadClosed(keep), true);
  }
  keep.reset();
  w->ctx.reset();
  Finish(ex);
}
vsim::Scenario s("cancel", P07);

// A cancelled operator closes its output even while a call of its functor does
// not return.
void StuckCall() {
  enum { kSMap, kSUnordered, kSForYields, kSForReturns, kSWhile, kSReduce, kSCall, kSNum };
  static const char* const names[] = {"map", "map_unordered", "for_yields", "for_returns", "while_yields", "reduce", "call"};
  auto w = std::make_shared<World>();
  Exec ex = MakeExec();
  if (ex.inline_tasks) {
    ex.ptr = GetDefaultAsioExecutor();
    ex.inline_tasks = false;
  }
  absl::Status why = SomeError(3);
  w->ctx = CancellationContext::Make();
  vsim::Count("cancelled");
  vsim::Count("functor-stuck");
  int op = Pick(kSNum);
  int n = 1 + Pick(4);
  int stuck_at = Pick(n);
  bool early = Pick(3) == 0;  // does not wait for the functor to be stuck
  struct Stuck {
    absl::Notification in, released;
    int calls = 0;
  };
  auto st = std::make_shared<Stuck>();
  auto maybe_stick = [st, stuck_at, w](int i) {
    CheckContext(*w);
    if (i != stuck_at) return;
    st->in.Notify();
    st->released.WaitForNotification("idle: a functor that does not return");
  };
  auto [stream, writer] = MakeStream(GetQType<Tok>());
  std::vector<int64_t> want;
  for (int i = 0; i < n; ++i) writer->Write(MakeTok(i).AsRef());
  if (Pick(2)) {
    std::move(*writer).Close();
    writer.reset();
  }
  vsim::Spawn([w, st, why, early] {
    if (early) {
      Pause();
    } else {
      st->in.WaitForNotification();
    }
    w->ctx->Cancel(why);
    vsim::NoPreempt np;
    w->cancel_done = true;
  }, "canceller");
  StreamPtr out;
  {
    CancellationContext::ScopeGuard guard(w->ctx);
    auto item = [maybe_stick, p = Probe()](TypedRef v) -> Result {
      maybe_stick(GetTok(v));
      return MakeTok(GetTok(v) + 100);
    };
    auto body = [maybe_stick, st, op, p = Probe()](Args a, Names) -> Result {
      int i = st->calls++;
      maybe_stick(i);
      int64_t v = GetTok(a[0]) + 100;
      if (op == kSWhile) v = i + 100;
      return Named({"acc", op == kSForReturns ? "returns" : "gen"}, {MakeTok(v), MakeTok(v)});
    };
    auto one = MakeTok(1);
    auto state = Named({"acc"}, {MakeTok(0)});
    absl::StatusOr<StreamPtr> r = absl::UnknownError("");
    switch (op) {
      case kSMap: r = StreamMap(ex.ptr, stream, GetQType<Tok>(), item); break;
      case kSUnordered: r = StreamMapUnordered(ex.ptr, stream, GetQType<Tok>(), item); break;
      case kSForYields: r = StreamForYields(ex.ptr, stream, body, nullptr, nullptr, "gen", one.AsRef(), state.AsRef()); break;
      case kSForReturns: r = StreamForReturns(ex.ptr, stream, body, nullptr, nullptr, one.AsRef(), state.AsRef()); break;
      case kSWhile:
        r = StreamWhileYields(ex.ptr, [p = Probe()](Args, Names) -> Result { return TypedValue::FromValue(True()); }, body, "gen", one.AsRef(), state.AsRef());
        break;
      case kSReduce:
        r = StreamReduce(ex.ptr, MakeTok(1), stream, [item](TypedRef, TypedRef b) -> Result { return item(b); });
        break;
      default: {
        auto arg = MakeStreamQValue(stream);
        r = StreamCall(ex.ptr, [maybe_stick, stuck_at, p = Probe()](Args a) -> Result {
          maybe_stick(stuck_at);
          return TypedValue(a[0]);
        }, GetQType<Tok>(), {arg.AsRef()});
      }
    }
    if (!r.ok()) Violation("wrong-end", "the operator failed");
    out = *std::move(r);
  }
  for (int i = 0; op == kSMap && i < stuck_at; ++i) want.push_back(i + 100);
  if (op == kSForYields || op == kSWhile) {
    want.push_back(1);
    for (int i = 0; i < stuck_at; ++i) want.push_back(i + 100);
  }
  stream.reset();
  auto read = SpawnReader(out, "reader");
  out.reset();
  vsim::Quiesce(true);
  if (!w->cancel_done) Violation("stuck-cancel", "%s: Cancel() does not return while a call of the functor is stuck", names[op]);
  if (!read->end.closed) Violation("not-closed", "%s: cancelled while a call of the functor is stuck: the output was not closed", names[op]);
  if (!(read->end == ToEnd(why)) && !IsOrphaned(read->end)) Violation("wrong-end", "%s: cancelled while a call of the functor is stuck: ended with %s", names[op], Str(read->end).c_str());
  if (op == kSUnordered) {
    std::map<int64_t, int> left;
    for (int i = 0; i < n; ++i) if (i != stuck_at) ++left[i + 100];
    for (int64_t v : read->vals) if (--left[v] < 0) Violation("wrong-items", "%s gave %s", names[op], Str(read->vals).c_str());
  } else if (!IsPrefix(read->vals, want)) {
    Violation("wrong-items", "%s gave %s, expected a beginning of %s", names[op], Str(read->vals).c_str(), Str(want).c_str());
  }
  st->released.Notify();
  vsim::Quiesce(true);
  writer.reset();
  vsim::Quiesce();
  w->ctx.reset();
  Finish(ex);
}
vsim::Scenario s4("stuck_call", StuckCall);

// Endless loops stop when they are cancelled or abandoned.
void Endless() {
  auto w = std::make_shared<World>();
  Exec ex = MakeExec();
  bool cancel = ex.inline_tasks || Pick(2) == 0;
  bool yields = Pick(2);
  bool stream_cond = Pick(2);
  absl::Status why = absl::CancelledError("stop");
  w->ctx = CancellationContext::Make();
  auto guard = std::make_unique<CancellationContext::ScopeGuard>(w->ctx);
  if (cancel) {
    vsim::Count("cancelled");
    vsim::Spawn([w, why] {
      int n = Pick(6);
      for (int i = 0; i < n; ++i) Pause();
      w->ctx->Cancel(why);
      vsim::NoPreempt np;
      w->cancel_done = true;
    }, "canceller");
  }
  auto make_cond = [&] {
    return [w, stream_cond, p = Probe()](Args, Names) -> Result {
      if (w->stop) return TypedValue::FromValue(False());
      if (!stream_cond) return TypedValue::FromValue(True());
      auto [s, wr] = MakeStream(GetQType<DataSlice>());
      auto t = True();
      wr->Write(TypedRef::FromValue(t));
      std::move(*wr).Close();
      return MakeStreamQValue(s);
    };
  };
  auto make_body = [&] {
    return [w, yields, p = Probe()](Args a, Names) -> Result {
      {
        vsim::NoPreempt np;
        if (w->cancel_done || w->abandoned) {
          if (++w->after > 2) Violation("keeps-running", "an endless loop goes on after its output was %s", w->cancel_done ? "cancelled" : "abandoned");
        }
      }
      // Lets the others run, so that the run stays short.
      Pause();
      int64_t v = GetTok(a[0]) + 1;
      return Named({"acc", yields ? "gen" : "returns"}, {MakeTok(v), MakeTok(v)});
    };
  };
  absl::StatusOr<StreamPtr> r = absl::UnknownError("");
  {
  auto one = MakeTok(1);
  auto state = Named({"acc"}, {MakeTok(0)});
  r = yields ? StreamWhileYields(ex.ptr, make_cond(), make_body(), "gen", one.AsRef(), state.AsRef())
                  : StreamWhileReturns(ex.ptr, make_cond(), make_body(), one.AsRef(), state.AsRef());
  }
  if (!r.ok()) Violation("wrong-end", "the operator failed");
  StreamPtr out = *std::move(r);
  if (cancel) {
    auto read = SpawnReader(out, "reader");
    out.reset();
    vsim::Quiesce();
    const auto& v = read->vals;
    for (size_t i = 0; i < v.size(); ++i) {
      // Yields: the initial value, then 1, 2, ...
      if (yields ? v[i] != (i == 0 ? 1 : (int64_t)i) : true) Violation("wrong-items", "the endless loop gave %s", Str(v).c_str());
    }
    if (read->end.ok() || !read->end.closed) Violation("wrong-end", "a cancelled endless loop ended with %s", Str(read->end).c_str());
    if (!(read->end == ToEnd(why)) && !IsOrphaned(read->end)) Violation("wrong-end", "a cancelled endless loop ended with %s", Str(read->end).c_str());
  } else {
    vsim::Count("abandoned");
    vsim::Spawn([w, out]() mutable {
      int n = Pick(4);
      auto reader = out->MakeReader();
      out.reset();
      for (int i = 0; i < n; ++i) {
        Pause();
        reader->TryRead();
      }
      reader.reset();
      vsim::NoPreempt np;
      w->abandoned = true;
    }, "reader");
    out.reset();
    vsim::Quiesce();
  }
  guard.reset();
  w->ctx.reset();
  Finish(ex);
}
vsim::Scenario s2("endless", Endless);

// Futures of async_eval when the executor discards tasks.
void EvalDiscard() {
  auto w = std::make_shared<World>();
  Exec ex = MakeExec(true);
  bool with_ctx = Pick(2);
  if (with_ctx) w->ctx = CancellationContext::Make();
  std::optional<CancellationContext::ScopeGuard> guard;
  if (with_ctx) guard.emplace(w->ctx);
  auto calls = std::make_shared<int>(0);
  auto op = std::make_shared<arolla::expr::ExprOperator>([w, calls](Args a) -> Result {
    CheckContext(*w);
    {
      vsim::NoPreempt np;
      ++*calls;
    }
    return MakeTok(GetTok(a[0]) + 1);
  });
  int n = 1 + Pick(4);
  auto [f0, w0] = MakeFuture(GetQType<Tok>());
  bool dropped = Chance(1, 4);
  vsim::Spawn([dropped, w0 = std::make_shared<FutureWriter>(std::move(w0))]() mutable {
    Pause();
    auto mine = std::move(*w0);
    w0.reset();
    if (!dropped) std::move(mine).SetValue(MakeTok(1));
  }, "setter");
  FuturePtr f = f0;
  f0.reset();
  auto seen = std::make_shared<int>(0);
  for (int i = 0; i < n; ++i) {
    auto in = MakeFutureQValue(f);
    f = *AsyncEvalWithCompilationCache(ex.ptr, op, {in.AsRef()}, GetQType<Tok>());
    if (Pick(3) == 0) Pause();
  }
  f->AddConsumer([seen, n](Result r) {
    vsim::NoPreempt np;
    ++*seen;
    if (r.ok() && GetTok(*r) != n + 1) Violation("wrong-value", "got %ld", (long)GetTok(*r));
    if (!r.ok() && !IsOrphaned(ToEnd(r.status()))) Violation("wrong-end", "got %s", Str(ToEnd(r.status())).c_str());
    if (!r.ok()) *seen += 10;
  });
  f.reset();
  op.reset();
  vsim::Quiesce();
  if (*seen != 1 && *seen != 11) Violation("not-consumed", "the last future was consumed %d times", *seen % 10);
  bool ok = !dropped && !Discarded(ex);
  if (ok != (*seen == 1) && !(Discarded(ex) && *seen == 1 && !dropped)) Violation("wrong-end", "the last future %s", *seen == 1 ? "has a value" : "failed");
  if (*calls > n) Violation("called-twice", "%d operators were evaluated %d times", n, *calls);
  guard.reset();
  w->ctx.reset();
  Finish(ex);
}
vsim::Scenario s3("eval_discard", EvalDiscard);

}  // namespace
}  // namespace sim
