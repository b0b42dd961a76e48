// The operators over futures and streams: each is bound and run on a frame
// that is destroyed as soon as the operator returns.
#include <algorithm>
#include <map>
#include <set>

#include "absl/synchronization/notification.h"
#include "arolla/expr/expr_operator.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qtype/unspecified_qtype.h"
#include "arolla/sequence/sequence.h"
#include "arolla/util/status.h"
#include "common.h"
#include "koladata/functor/call.h"
#include "koladata/functor/parallel/async_eval_operator.h"
#include "koladata/functor/parallel/future_operators.h"
#include "koladata/functor/parallel/stream_operators.h"
#include "koladata/iterables/iterable_qtype.h"
#include "pipeline.h"

namespace sim {
namespace {

using koladata::DataSlice;
using arolla::Text;
using Result = absl::StatusOr<TypedValue>;
using Args = absl::Span<const TypedRef>;
using Names = absl::Span<const std::string>;
using Fn = std::function<Result(Args, Names)>;

// Functors are slices that hold their index in this table.
std::vector<Fn>* g_functors = new std::vector<Fn>;
TypedValue Functor(Fn f) {
  vsim::NoPreempt np;
  g_functors->push_back(std::move(f));
  return TypedValue::FromValue(DataSlice::CreatePrimitive(int64_t(g_functors->size() - 1)));
}

int64_t Named(Args args, Names names, const char* name) {
  size_t off = args.size() - names.size();
  for (size_t i = 0; i < names.size(); ++i) {
    if (names[i] == name) return GetTok(args[off + i]);
  }
  Violation("missing-variable", "the functor did not get '%s'", name);
}
TypedValue Tuple(std::vector<TypedValue> v) { return arolla::MakeTuple(v); }
TypedValue NamedTuple(std::vector<std::string> names, std::vector<TypedValue> vals) {
  std::vector<TypedRef> refs;
  for (auto& v : vals) refs.push_back(v.AsRef());
  return *arolla::MakeNamedTuple(names, refs);
}
TypedValue Token() { return TypedValue::FromValue(int64_t{0}); }
QTypePtr TokT_() { return GetQType<Tok>(); }
QTypePtr StreamT() { return GetStreamQType(TokT_()); }
QTypePtr FutureT() { return GetFutureQType(TokT_()); }

Result Run(const arolla::OperatorFamily& family, std::vector<TypedValue> args, QTypePtr out) {
  std::vector<QTypePtr> types;
  for (auto& a : args) types.push_back(a.GetType());
  if (Chance(1, 8)) {  // an operator refuses types that it cannot serve
    auto bad = family.GetOperator(types, GetQType<arolla::Unit>());
    if (bad.ok()) Violation("accepted-types", "an operator accepts the output type UNIT");
    auto more = types;
    more.push_back(GetQType<arolla::Unit>());
    if (!dynamic_cast<const AsyncEvalOperatorFamily*>(&family) && family.GetOperator(more, out).ok()) Violation("accepted-types", "an operator accepts an argument too many");
  }
  auto op = family.GetOperator(types, out);
  if (!op.ok()) return op.status();
  types.push_back(out);
  QTypePtr layout = arolla::MakeTupleQType(types);
  std::vector<arolla::TypedSlot> slots;
  for (auto& f : layout->type_fields()) slots.push_back(arolla::TypedSlot(f.type, f.offset));
  arolla::TypedSlot out_slot = slots.back();
  slots.pop_back();
  auto bound = (*op)->Bind(slots, out_slot);
  if (!bound.ok()) return bound.status();
  op = absl::UnknownError("");
  void* mem = ::operator new(layout->ops().size + 1, std::align_val_t{layout->ops().align});
  layout->UnsafeInit(mem);
  arolla::FramePtr frame(mem);
  for (size_t i = 0; i < args.size(); ++i) {
    if (!args[i].CopyToSlot(slots[i], frame).ok()) Violation("harness", "cannot fill the frame");
  }
  args.clear();
  arolla::EvaluationContext ctx;
  (*bound)->Run(&ctx, frame);
  Result r = ctx.status().ok() ? Result(TypedValue::FromSlot(out_slot, frame)) : Result(ctx.status());
  layout->UnsafeDestroy(mem);
  ::operator delete(mem, std::align_val_t{layout->ops().align});
  return r;
}
TypedValue Must(Result r, const char* what) {
  if (!r.ok()) Violation("refused", "%s failed with %s", what, Str(ToEnd(r.status())).c_str());
  return *std::move(r);
}
StreamPtr ToStream(const TypedValue& v) { return v.UnsafeAs<StreamPtr>(); }
FuturePtr ToFuture(const TypedValue& v) { return v.UnsafeAs<FuturePtr>(); }

// ---- futures ----------------------------------------------------------------

struct Fut {
  FuturePtr future;
  Result want = absl::UnknownError("");
};
// A future that gets `v` or an error or is abandoned, now or later.
Fut MakeFut(QTypePtr type, TypedValue v, int64_t salt) {
  Fut f;
  auto [future, writer] = MakeFuture(type);
  f.future = future;
  int how = Pick(8);
  if (how <= 5) {
    f.want = v;
  } else if (how == 6) {
    f.want = SomeError(salt);
    vsim::Count("input-error");
  } else {
    f.want = absl::CancelledError("orphaned");
    vsim::Count("writer-dropped");
  }
  auto set = [w = std::make_shared<FutureWriter>(std::move(writer)), want = f.want, how]() mutable {
    FutureWriter mine = std::move(*w);
    w.reset();
    if (Pick(2)) Pause();
    if (how <= 6) std::move(mine).SetValue(std::move(want));
  };
  if (Pick(3) == 0) {
    set();
  } else {
    vsim::Spawn(std::move(set), "setter");
  }
  return f;
}

struct Got {
  int calls = 0;
  Result v = absl::UnknownError("");
};
using GotPtr = std::shared_ptr<Got>;
GotPtr Consume(const FuturePtr& f) {
  auto g = std::make_shared<Got>();
  f->AddConsumer([g, p = Probe()](Result v) {
    vsim::NoPreempt np;
    ++g->calls;
    g->v = std::move(v);
  });
  return g;
}
std::string Show(const Result& v) {
  if (!v.ok()) return Str(ToEnd(v.status()));
  if (v->GetType() == TokT_()) return std::to_string(GetTok(*v));
  return std::string(v->GetType()->name());
}
bool SameTok(const Result& a, const Result& b) {
  if (a.ok() != b.ok()) return false;
  return a.ok() ? GetTok(*a) == GetTok(*b) : ToEnd(a.status()) == ToEnd(b.status());
}
void CheckFuture(const char* op, GotPtr g, const Result& want, const char* part = nullptr) {
  if (g->calls != 1) Violation("not-settled", "the future of %s was settled %d times, not once", op, g->calls);
  bool ok = part && !want.ok() && !g->v.ok()
                ? g->v.status().code() == want.status().code() && g->v.status().message().find(part) != std::string::npos
                : SameTok(g->v, want);
  if (!ok) Violation("wrong-value", "%s gave %s instead of %s", op, Show(g->v).c_str(), Show(want).c_str());
}
void CheckStream(const char* op, const ReadPtr& r, const std::vector<int64_t>& vals, const End& end) {
  if (r->vals != vals || !(r->end == end)) {
    Violation("wrong-items", "%s gave %s %s instead of %s %s", op, Str(r->vals).c_str(), Str(r->end).c_str(), Str(vals).c_str(), Str(end).c_str());
  }
}

void AsFuture() {
  TypedValue f = Must(Run(AsFutureOperatorFamily(), {MakeTok(5)}, FutureT()), "as_future");
  auto peek = ToFuture(f)->PeekValue();
  if (!peek.has_value() || !peek->ok() || GetTok(**peek) != 5) Violation("wrong-value", "as_future is not settled with its argument");
}

void UnwrapFuture() {
  Fut inner = MakeFut(TokT_(), MakeTok(3), 11);
  Fut outer = MakeFut(FutureT(), MakeFutureQValue(inner.future), 12);
  TypedValue f = Must(Run(UnwrapFutureToFutureOperatorFamily(), {MakeFutureQValue(outer.future)}, FutureT()), "unwrap_future_to_future");
  Result want = outer.want.ok() ? inner.want : outer.want;
  inner.future.reset();
  outer = Fut();
  inner.want = absl::UnknownError("");
  auto g = Consume(ToFuture(f));
  f = Token();
  vsim::Quiesce();
  CheckFuture("unwrap_future_to_future", g, want);
}

void UnwrapStream() {
  SourceOptions so;
  Source src = MakeSource(so);
  Fut outer = MakeFut(StreamT(), MakeStreamQValue(src.stream), 12);
  src.stream.reset();
  TypedValue s = Must(Run(UnwrapFutureToStreamOperatorFamily(), {MakeFutureQValue(outer.future)}, StreamT()), "unwrap_future_to_stream");
  bool ok = outer.want.ok();
  End end = ok ? src.end : ToEnd(outer.want.status());
  outer = Fut();
  auto read = SpawnReader(ToStream(s), "reader");
  s = Token();
  vsim::Quiesce();
  CheckStream("unwrap_future_to_stream", read, ok ? src.vals : std::vector<int64_t>(), end);
}

void StreamOfFuture() {
  Fut in = MakeFut(TokT_(), MakeTok(9), 13);
  TypedValue s = Must(Run(StreamFromFutureOperatorFamily(), {MakeFutureQValue(in.future)}, StreamT()), "stream_from_future");
  in.future.reset();
  auto read = SpawnReader(ToStream(s), "reader");
  s = Token();
  vsim::Quiesce();
  std::vector<int64_t> vals;
  if (in.want.ok()) vals.push_back(9);
  CheckStream("stream_from_future", read, vals, in.want.ok() ? OkEnd() : ToEnd(in.want.status()));
}

// What a stream holds when it must be a single value.
Result Single(const Source& src, const char** part) {
  if (src.vals.size() > 1) {
    *part = "more than one";
    return absl::InvalidArgumentError("");
  }
  if (!src.end.ok()) return absl::Status((absl::StatusCode)src.end.code, src.end.msg);
  if (src.vals.empty()) {
    *part = "no values";
    return absl::InvalidArgumentError("");
  }
  return MakeTok(src.vals[0]);
}

void FutureOfStream() {
  SourceOptions so;
  so.single = Pick(4) != 0;
  Source src = MakeSource(so);
  TypedValue f = Must(Run(FutureFromSingleValueStreamOperatorFamily(), {MakeStreamQValue(src.stream)}, FutureT()), "future_from_single_value_stream");
  src.stream.reset();
  auto g = Consume(ToFuture(f));
  f = Token();
  vsim::Quiesce();
  const char* part = nullptr;
  Result want = Single(src, &part);
  CheckFuture("future_from_single_value_stream", g, want, part);
}

void Iterable() {
  SourceOptions so;
  Source src = MakeSource(so);
  QTypePtr it = koladata::iterables::GetIterableQType(TokT_());
  TypedValue f = Must(Run(FutureIterableFromStreamOperatorFamily(), {MakeStreamQValue(src.stream)}, GetFutureQType(it)), "future_iterable_from_stream");
  src.stream.reset();
  auto g = Consume(ToFuture(f));
  f = Token();
  vsim::Quiesce();
  if (g->calls != 1) Violation("not-settled", "the future of future_iterable_from_stream was settled %d times", g->calls);
  if (g->v.ok() != src.end.ok() || (!g->v.ok() && !(ToEnd(g->v.status()) == src.end))) {
    Violation("wrong-value", "future_iterable_from_stream ended with %s instead of %s", Show(g->v).c_str(), Str(src.end).c_str());
  }
  if (!g->v.ok()) return;
  if (g->v->GetType() != it) Violation("wrong-value", "future_iterable_from_stream gave a %s", Show(g->v).c_str());
  std::vector<int64_t> vals;
  {
    const auto& seq = g->v->UnsafeAs<arolla::Sequence>();
    for (size_t i = 0; i < seq.size(); ++i) vals.push_back(GetTok(seq.GetRef(i)));
  }
  if (vals != src.vals) Violation("wrong-value", "future_iterable_from_stream gave %s instead of %s", Str(vals).c_str(), Str(src.vals).c_str());
  TypedValue s = Must(Run(StreamFromIterableOperatorFamily(), {*g->v}, StreamT()), "stream_from_iterable");
  g->v = absl::UnknownError("");
  Read r = ReadClosed(ToStream(s));
  if (r.vals != vals || !r.end.ok()) Violation("wrong-items", "stream_from_iterable gave %s %s", Str(r.vals).c_str(), Str(r.end).c_str());
}

TypedValue Location() {
  std::vector<std::string> names = {"function_name", "file_name", "line", "column", "line_text"};
  std::vector<TypedValue> vals = {TypedValue::FromValue(Text("fn")), TypedValue::FromValue(Text("file")), TypedValue::FromValue(int32_t{7}),
                                  TypedValue::FromValue(int32_t{8}), TypedValue::FromValue(Text("text"))};
  int rot = Pick(5);
  std::rotate(names.begin(), names.begin() + rot, names.end());
  std::rotate(vals.begin(), vals.begin() + rot, vals.end());
  return NamedTuple(names, vals);
}
void CheckLocation(const char* op, const absl::Status& s) {
  auto* l = arolla::GetPayload<arolla::SourceLocationPayload>(s);
  if (!l || l->function_name != "fn" || l->file_name != "file" || l->line != 7 || l->column != 8 || l->line_text != "text") {
    Violation("wrong-location", "the error of %s lacks its source location", op);
  }
  if (!arolla::GetCause(s)) Violation("wrong-location", "the error of %s lacks its cause", op);
}
void LocateFuture() {
  Fut in = MakeFut(TokT_(), MakeTok(9), 14);
  TypedValue f = Must(Run(AddSourceLocationOnErrorToFutureOperatorFamily(), {MakeFutureQValue(in.future), Location()}, FutureT()), "add_source_location");
  in.future.reset();
  auto g = Consume(ToFuture(f));
  f = Token();
  vsim::Quiesce();
  CheckFuture("add_source_location_on_error_to_future", g, in.want);
  if (!g->v.ok()) CheckLocation("add_source_location_on_error_to_future", g->v.status());
}
void LocateStream() {
  SourceOptions so;
  Source src = MakeSource(so);
  TypedValue s = Must(Run(AddSourceLocationOnErrorToStreamOperatorFamily(), {MakeStreamQValue(src.stream), Location()}, StreamT()), "add_source_location");
  src.stream.reset();
  StreamPtr out = ToStream(s);
  auto read = SpawnReader(out, "reader");
  s = Token();
  vsim::Quiesce();
  CheckStream("add_source_location_on_error_to_stream", read, src.vals, src.end);
  if (!src.end.ok()) {
    auto reader = out->MakeReader();
    for (;;) {
      auto r = reader->TryRead();
      if (auto* st = r.close_status()) {
        CheckLocation("add_source_location_on_error_to_stream", *st);
        break;
      }
      if (r.empty()) Violation("wrong-end", "a closed stream is not closed for a second reader");
    }
  }
}

void Unpack() {
  int n = Pick(4);
  bool named = Pick(2);
  std::vector<TypedValue> vals;
  std::vector<std::string> names;
  std::vector<QTypePtr> out;
  for (int i = 0; i < n; ++i) {
    vals.push_back(MakeTok(100 + i));
    names.push_back("f" + std::to_string(i));
    out.push_back(FutureT());
  }
  TypedValue tuple = named ? NamedTuple(names, vals) : Tuple(vals);
  Fut in = MakeFut(tuple.GetType(), tuple, 15);
  vals.clear();
  tuple = Token();
  TypedValue t = Must(Run(AsyncUnpackTupleOperatorFamily(), {MakeFutureQValue(in.future)}, arolla::MakeTupleQType(out)), "async_unpack_tuple");
  in.future.reset();
  std::vector<GotPtr> gots;
  for (int i = 0; i < n; ++i) gots.push_back(Consume(t.GetField(i).UnsafeAs<FuturePtr>()));
  t = Token();
  vsim::Quiesce();
  for (int i = 0; i < n; ++i) CheckFuture("async_unpack_tuple", gots[i], in.want.ok() ? Result(MakeTok(100 + i)) : in.want);
}

// ---- composition ------------------------------------------------------------

// The stream of `n` streams, filled from the outside.
struct Many {
  std::vector<Source> in;
  End end = OkEnd();  // of the outer stream
  StreamPtr outer;
};
Many MakeMany(bool outer) {
  Many m;
  int n = Pick(4);
  std::vector<TypedValue> items;
  for (int k = 0; k < n; ++k) {
    SourceOptions so;
    so.base = 100 * (k + 1);
    so.max_items = 3;
    so.errors = Pick(4) == 0;
    m.in.push_back(MakeSource(so));
    items.push_back(MakeStreamQValue(m.in.back().stream));
  }
  if (outer) {
    SourceOptions so;
    so.items = items;
    so.qtype = StreamT();
    so.base = 7000;
    so.max_items = 0;
    Source s = MakeSource(so);
    m.outer = s.stream;
    m.end = s.end;
    m.in.resize(std::min(m.in.size(), s.vals.size()));
  }
  return m;
}

void Compose(bool interleave, bool from_stream) {
  Many m = MakeMany(from_stream);
  const char* op = interleave ? from_stream ? "stream_interleave_from_stream" : "stream_interleave"
                              : from_stream ? "stream_chain_from_stream" : "stream_chain";
  TypedValue s = Token();
  if (from_stream) {
    std::vector<TypedValue> args = {MakeStreamQValue(m.outer), Token()};
    m.outer.reset();
    s = Must(interleave ? Run(StreamInterleaveFromStreamOperatorFamily(), args, StreamT()) : Run(StreamChainFromStreamOperatorFamily(), args, StreamT()), op);
  } else {
    std::vector<TypedValue> streams;
    for (auto& i : m.in) streams.push_back(MakeStreamQValue(i.stream));
    std::vector<TypedValue> args = {Tuple(streams), MakeTok(0), Token()};
    s = Must(interleave ? Run(StreamInterleaveOperatorFamily(), args, StreamT()) : Run(StreamChainOperatorFamily(), args, StreamT()), op);
  }
  for (auto& i : m.in) i.stream.reset();
  auto read = SpawnReader(ToStream(s), "reader");
  s = Token();
  vsim::Quiesce();
  if (!interleave) {
    std::vector<int64_t> vals;
    End end = OkEnd();
    for (auto& i : m.in) {
      vals.insert(vals.end(), i.vals.begin(), i.vals.end());
      end = i.end;
      if (!end.ok()) break;
    }
    if (end.ok()) end = m.end;
    return CheckStream(op, read, vals, end);
  }
  std::vector<size_t> seen(m.in.size());
  for (int64_t v : read->vals) {
    size_t k = v / 100 - 1;
    if (k >= m.in.size() || seen[k] >= m.in[k].vals.size() || m.in[k].vals[seen[k]++] != v) {
      Violation("wrong-items", "%s loses, repeats or reorders items: %s", op, Str(read->vals).c_str());
    }
  }
  bool errors = !m.end.ok(), found = !m.end.ok() && m.end == read->end, all = true;
  for (size_t k = 0; k < m.in.size(); ++k) {
    bool complete = seen[k] == m.in[k].vals.size();
    all &= complete;
    errors |= !m.in[k].end.ok();
    found |= !m.in[k].end.ok() && m.in[k].end == read->end && complete;
  }
  if (errors ? !found : !read->end.ok() || !all) {
    Violation("wrong-end", "%s ended with %s after %s", op, Str(read->end).c_str(), Str(read->vals).c_str());
  }
}

void Make() {
  int n = Pick(5);
  std::vector<TypedValue> vals;
  std::vector<int64_t> want;
  for (int i = 0; i < n; ++i) {
    vals.push_back(MakeTok(i));
    want.push_back(i);
  }
  TypedValue s = Must(Run(StreamMakeOperatorFamily(), {Tuple(vals), MakeTok(0)}, StreamT()), "stream_make");
  vals.clear();
  Read r = ReadClosed(ToStream(s));
  if (r.vals != want || !r.end.ok()) Violation("wrong-items", "stream_make gave %s %s", Str(r.vals).c_str(), Str(r.end).c_str());
  TypedValue e = Must(Run(EmptyStreamLikeOperatorFamily(), {s}, StreamT()), "empty_stream_like");
  Read r2 = ReadClosed(ToStream(e));
  if (!r2.vals.empty() || !r2.end.ok()) Violation("wrong-items", "empty_stream_like gave %s %s", Str(r2.vals).c_str(), Str(r2.end).c_str());
}

void FromSlice() {
  int n = Pick(6);
  std::vector<int64_t> list;
  for (int i = 0; i < n; ++i) list.push_back(10 + i);
  auto bag = std::make_shared<const int>(1);
  int64_t rank = Pick(6) == 0 ? 2 : 1;
  auto ctx = CancellationContext::Make();
  bool cancelled = false;
  if (Pick(3) == 0) {
    cancelled = true;
    vsim::Count("cancel");
    vsim::Spawn([ctx] { ctx->Cancel(absl::CancelledError("stop it")); }, "canceller");
  }
  absl::StatusOr<StreamPtr> s = absl::UnknownError("");
  {
    CancellationContext::ScopeGuard guard(ctx);
    if (Pick(2)) Pause();
    s = StreamFrom1dSlice(DataSlice::List(list, rank).WithBag(bag));
  }
  vsim::Quiesce();
  if (!s.ok()) {
    if (rank == 2 && s.status().code() == absl::StatusCode::kInvalidArgument) return;
    if (rank == 1 && cancelled && s.status().message() == "stop it") return;
    Violation("wrong-end", "a stream from a slice failed with %s", Str(ToEnd(s.status())).c_str());
  }
  if (rank == 2) Violation("wrong-end", "a slice of two dimensions became a stream");
  Read r = ReadClosed(*s, [bag](TypedRef v) {
    auto& d = v.UnsafeAs<DataSlice>();
    if (d.GetBag() != bag) Violation("wrong-items", "an item of a slice's stream lacks the slice's bag");
    return d.item().value<int64_t>();
  });
  if (r.vals != list || !r.end.ok()) Violation("wrong-items", "the stream of a slice is %s %s", Str(r.vals).c_str(), Str(r.end).c_str());
}

// ---- waiting ----------------------------------------------------------------

void Wait() {
  Exec ex = MakeExec();
  bool on_stream = Pick(2), sync = Pick(2);
  TypedValue in = Token();
  Result want = absl::UnknownError("");
  const char* part = nullptr;
  bool stalled = Pick(5) == 0;
  auto held = std::make_shared<std::vector<std::shared_ptr<void>>>();
  std::shared_ptr<std::atomic<bool>> ready = std::make_shared<std::atomic<bool>>(false);
  if (stalled) {  // an input that never ends
    vsim::Count("stalled-input");
    if (on_stream) {
      auto [s, w] = MakeStream(TokT_());
      if (Pick(2)) w->Write(MakeTok(1).AsRef());
      in = MakeStreamQValue(s);
      held->push_back(std::shared_ptr<StreamWriter>(std::move(w)));
    } else {
      auto [f, w] = MakeFuture(TokT_());
      in = MakeFutureQValue(f);
      held->push_back(std::make_shared<FutureWriter>(std::move(w)));
    }
  } else if (on_stream) {
    SourceOptions so;
    so.single = Pick(4) != 0;
    Source src = MakeSource(so);
    in = MakeStreamQValue(src.stream);
    want = Single(src, &part);
    if (part) part = src.vals.empty() ? "empty stream" : "multiple items";
  } else {
    Fut f = MakeFut(TokT_(), MakeTok(4), 16);
    in = MakeFutureQValue(f.future);
    want = f.want;
  }
  bool cancel = stalled || Pick(3) == 0;
  auto ctx = CancellationContext::Make();
  bool in_task = Pick(3) == 0;
  auto got = std::make_shared<Got>();
  std::function<void()> wait = [in, ctx, sync, got, in_task, cancel, p = Probe()]() mutable {
    // Without a context there is nothing to subscribe to.
    std::unique_ptr<CancellationContext::ScopeGuard> guard;
    if (cancel || Pick(2)) guard = std::make_unique<CancellationContext::ScopeGuard>(ctx);
    auto r = sync ? Run(SyncWaitOperatorFamily(), {in}, TokT_()) : Run(UnsafeBlockingWaitOperatorFamily(), {in}, TokT_());
    in = Token();
    vsim::NoPreempt np;
    ++got->calls;
    got->v = std::move(r);
  };
  in = Token();
  if (cancel) {
    vsim::Count("cancel");
    vsim::Spawn([ctx] {
      if (Pick(2)) Pause();
      ctx->Cancel(absl::CancelledError("stop it"));
    }, "canceller");
  }
  if (in_task) {
    std::unique_ptr<CancellationContext::ScopeGuard> guard;
    if (Pick(2)) guard = std::make_unique<CancellationContext::ScopeGuard>(ctx);
    ex.ptr->Schedule(std::move(wait));
  } else if (Pick(2)) {
    vsim::Spawn(std::move(wait), "waiter");
  } else {
    if (Pick(2)) ex.ptr->Schedule([p = Probe()] {});  // leaves no trace on this thread
    wait();
    wait = nullptr;
  }
  vsim::Quiesce();
  const char* op = sync ? "sync_wait" : "unsafe_blocking_wait";
  if (in_task && got->calls == 0 && cancel) {
    // A task is not run under a cancelled context.
  } else if (got->calls != 1) {
    Violation("not-settled", "%s returned %d times", op, got->calls);
  } else if (in_task && sync) {
    if (got->v.ok() || got->v.status().message().find("asynchronous task") == std::string::npos) {
      Violation("wrong-value", "sync_wait in a task gave %s", Show(got->v).c_str());
    }
  } else {
    bool stop = cancel && !got->v.ok() && got->v.status().message() == "stop it";
    if (!stop) {
      if (stalled) Violation("wrong-value", "%s of an input that never ends gave %s", op, Show(got->v).c_str());
      CheckFuture(op, got, want, part);
    }
  }
  held->clear();
  got->v = absl::UnknownError("");
  want = absl::UnknownError("");
  vsim::Quiesce();
  Finish(ex);
}

// ---- operators with functors ------------------------------------------------

void Map() {
  Exec ex = MakeExec();
  bool unordered = Pick(2);
  SourceOptions so;
  Source src = MakeSource(so);
  int64_t fail = Chance(1, 4) ? (int64_t)(1 + Pick(6)) : -1;
  int64_t odd = Chance(1, 8) ? (int64_t)(1 + Pick(6)) : -1;  // a result of another type
  TypedValue f = Functor([fail, odd, p = Probe()](Args a, Names n) -> Result {
    if (a.size() != 1 || !n.empty()) Violation("wrong-variables", "the functor of map got %zu arguments", a.size());
    int64_t v = GetTok(a[0]);
    if (Pick(2)) Pause();
    if (v == fail) return SomeError(21);
    if (v == odd) return Token();
    return MakeTok(v + 1000);
  });
  std::vector<TypedValue> args = {TypedValue::FromValue(ex.ptr), MakeStreamQValue(src.stream), f, MakeTok(0), Token()};
  src.stream.reset();
  TypedValue s = Must(unordered ? Run(StreamMapUnorderedOperatorFamily(), args, StreamT()) : Run(StreamMapOperatorFamily(), args, StreamT()), "stream_map");
  args.clear();
  auto read = SpawnReader(ToStream(s), "reader");
  s = Token();
  vsim::Quiesce();
  std::vector<int64_t> vals;
  End end = src.end;
  bool any = false, odd_end = false;
  for (int64_t v : src.vals) {
    if (v == fail || v == odd) {
      any = true;
      odd_end = v == odd && v != fail;
      end = v == fail ? ToEnd(SomeError(21)) : ToEnd(absl::InvalidArgumentError(""));
      break;
    }
    vals.push_back(v + 1000);
  }
  if (unordered) {
    if (any || !src.end.ok()) {
      if (read->end.ok() || !read->end.closed) Violation("wrong-end", "stream_map_unordered ended with %s", Str(read->end).c_str());
    } else {
      std::sort(read->vals.begin(), read->vals.end());
      CheckStream("stream_map_unordered", read, vals, end);
    }
  } else if (odd_end) {
    if (read->vals != vals || read->end.code != end.code || read->end.msg.find("return type") == std::string::npos) {
      Violation("wrong-end", "stream_map with a result of another type gave %s %s", Str(read->vals).c_str(), Str(read->end).c_str());
    }
  } else {
    CheckStream("stream_map", read, vals, end);
  }
  g_functors->clear();
  Finish(ex);
}

void ReduceOp() {
  Exec ex = MakeExec();
  SourceOptions so;
  Source src = MakeSource(so);
  TypedValue f = Functor([p = Probe()](Args a, Names n) -> Result {
    if (a.size() != 2 || !n.empty()) Violation("wrong-variables", "the functor of reduce got %zu arguments", a.size());
    if (Pick(2)) Pause();
    return MakeTok((GetTok(a[0]) * 3 + GetTok(a[1])) % 10007);
  });
  std::vector<TypedValue> args = {TypedValue::FromValue(ex.ptr), f, MakeStreamQValue(src.stream), MakeTok(5), Token()};
  src.stream.reset();
  TypedValue s = Must(Run(StreamReduceOperatorFamily(), args, StreamT()), "stream_reduce");
  args.clear();
  auto read = SpawnReader(ToStream(s), "reader");
  s = Token();
  vsim::Quiesce();
  int64_t acc = 5;
  for (int64_t v : src.vals) acc = (acc * 3 + v) % 10007;
  std::vector<int64_t> vals;
  if (src.end.ok()) vals.push_back(acc);
  CheckStream("stream_reduce", read, vals, src.end);
  g_functors->clear();
  Finish(ex);
}

void Loop() {
  enum { kForReturns, kForYields, kWhileReturns, kWhileYields };
  int op = Pick(4);
  bool loop = op >= kWhileReturns, yields = op == kForYields || op == kWhileYields;
  Exec ex = MakeExec();
  Source src;
  if (!loop) {
    SourceOptions so;
    src = MakeSource(so);
  }
  bool cond = loop || Pick(2), final = !loop && Pick(2);
  int64_t limit = 1 + Pick(5), fail = Chance(1, 6) ? (int64_t)Pick(5) : -1;
  const char* out = yields ? "gen" : "returns";
  size_t nvars = yields ? 2 : 3;
  // acc counts the calls of the body; x is a second variable.
  Fn body_fn = [=, p = Probe()](Args a, Names n) -> Result {
    if (n.size() != nvars || a.size() != nvars + !loop) Violation("wrong-variables", "a body got %zu arguments, %zu named", a.size(), n.size());
    int64_t acc = Named(a, n, "acc"), x = Named(a, n, "x"), item = loop ? 0 : GetTok(a[0]);
    if (Pick(2)) Pause();
    if (acc == fail) return SomeError(31);
    return NamedTuple({"acc", out, "x"}, {MakeTok(acc + 1), MakeTok(x * 3 + item), MakeTok(x + item + 1)});
  };
  Fn cond_fn = [=, p = Probe()](Args a, Names n) -> Result {
    if (n.size() != nvars || a.size() != nvars) Violation("wrong-variables", "a condition got %zu arguments, %zu named", a.size(), n.size());
    bool go = Named(a, n, "acc") < limit;
    return TypedValue::FromValue(go ? DataSlice::CreatePrimitive(arolla::Unit{}) : DataSlice::Item(koladata::internal::DataItem(), koladata::schema::kMask));
  };
  Fn final_fn = [=, p = Probe()](Args a, Names n) -> Result {
    if (n.size() != nvars || a.size() != nvars) Violation("wrong-variables", "a finalizer got %zu arguments, %zu named", a.size(), n.size());
    return NamedTuple({out}, {MakeTok(Named(a, n, "x") + 5000)});
  };
  std::vector<int64_t> want;
  End end;
  {
    int64_t acc = 0, x = 2, r = 77;
    if (yields) want.push_back(r);
    auto set = [&](int64_t v) {
      r = v;
      if (yields) want.push_back(v);
    };
    for (size_t i = 0;; ++i) {
      if (cond && acc >= limit) {
        end = OkEnd();
        break;
      }
      if (!loop && i == src.vals.size()) {
        end = src.end;
        if (end.ok() && final) set(x + 5000);
        break;
      }
      if (acc == fail) {
        end = ToEnd(SomeError(31));
        break;
      }
      int64_t item = loop ? 0 : src.vals[i];
      set(x * 3 + item);
      ++acc;
      x += item + 1;
    }
    if (!yields && end.ok()) want.push_back(r);
  }
  TypedValue none = arolla::GetUnspecifiedQValue();
  TypedValue body = Functor(body_fn), c = cond ? Functor(cond_fn) : none, fin = final ? Functor(final_fn) : none;
  body_fn = cond_fn = final_fn = nullptr;
  TypedValue state = NamedTuple({"acc", "x"}, {MakeTok(0), MakeTok(2)});
  std::vector<TypedValue> args = {TypedValue::FromValue(ex.ptr)};
  if (loop) {
    args.push_back(c);
    args.push_back(body);
  } else {
    args.push_back(MakeStreamQValue(src.stream));
    args.push_back(body);
    args.push_back(fin);
    args.push_back(c);
  }
  if (yields) args.push_back(TypedValue::FromValue(Text(out)));
  args.push_back(MakeTok(77));
  args.push_back(state);
  args.push_back(Token());
  src.stream.reset();
  state = Token();
  Result r = absl::UnknownError("");
  if (op == kForReturns) r = Run(StreamForReturnsOperatorFamily(), std::move(args), StreamT());
  if (op == kForYields) r = Run(StreamForYieldsOperatorFamily(), std::move(args), StreamT());
  if (op == kWhileReturns) r = Run(StreamWhileReturnsOperatorFamily(), std::move(args), StreamT());
  if (op == kWhileYields) r = Run(StreamWhileYieldsOperatorFamily(), std::move(args), StreamT());
  args.clear();
  TypedValue s = Must(std::move(r), "a loop");
  auto read = SpawnReader(ToStream(s), "reader");
  s = Token();
  r = absl::UnknownError("");
  vsim::Quiesce();
  static const char* kNames[] = {"stream_for_returns", "stream_for_yields", "stream_while_returns", "stream_while_yields"};
  bool same = read->vals == want && read->end.closed == end.closed && read->end.code == end.code;
  if (!same) {
    Violation("wrong-items", "%s gave %s %s instead of %s %s", kNames[op], Str(read->vals).c_str(), Str(read->end).c_str(), Str(want).c_str(), Str(end).c_str());
  }
  g_functors->clear();
  Finish(ex);
}

void Call() {
  Exec ex = MakeExec();
  SourceOptions so;
  so.single = true;
  Source src = MakeSource(so);
  bool fail = Chance(1, 5), wrong = !fail && Chance(1, 8);
  int calls = 0;
  TypedValue f = Functor([=, &calls, p = Probe()](Args a, Names n) -> Result {
    ++calls;
    if (a.size() != 3 || n.size() != 1 || n[0] != "k" || GetTok(a[0]) != 1 || GetTok(a[2]) != 3) {
      Violation("wrong-variables", "the functor of call got %zu arguments, %zu named", a.size(), n.size());
    }
    if (fail) return SomeError(41);
    if (wrong) return Token();
    return MakeTok(GetTok(a[1]) + 100);
  });
  // An argument that is to be awaited is a stream with that label.
  std::vector<TypedValue> args = {TypedValue::FromValue(ex.ptr), f, Tuple({MakeTok(1), MakeTok(2)}), MakeTok(0), NamedTuple({"k"}, {MakeTok(3)}), Token()};
  src.stream.reset();
  TypedValue s = Must(Run(StreamCallOperatorFamily(), args, StreamT()), "stream_call");
  args.clear();
  auto read = SpawnReader(ToStream(s), "reader");
  s = Token();
  vsim::Quiesce();
  if (calls != 1) Violation("wrong-calls", "stream_call called its functor %d times", calls);
  if (fail || wrong) {
    int code = fail ? (int)SomeError(41).code() : (int)absl::StatusCode::kInvalidArgument;
    if (!read->vals.empty() || read->end.code != code) Violation("wrong-end", "a failing stream_call gave %s %s", Str(read->vals).c_str(), Str(read->end).c_str());
  } else {
    CheckStream("stream_call", read, {102}, OkEnd());
  }
  g_functors->clear();
  Finish(ex);
}

void Eval() {
  Exec ex = MakeExec();
  Fut in = MakeFut(TokT_(), MakeTok(4), 51);
  bool fail = Chance(1, 5);
  auto op = std::make_shared<arolla::expr::ExprOperator>(
      [fail, p = Probe()](Args a) -> Result {
        if (a.size() != 2) Violation("wrong-variables", "the operator got %zu arguments", a.size());
        if (fail) return SomeError(52);
        return MakeTok(GetTok(a[0]) * 10 + GetTok(a[1]));
      },
      fail ? "p18-fail" : "p18-op");
  std::vector<TypedValue> args = {TypedValue::FromValue(ex.ptr), TypedValue::FromValue(arolla::expr::ExprOperatorPtr(op)), MakeTok(3), MakeFutureQValue(in.future)};
  in.future.reset();
  op.reset();
  TypedValue f = Must(Run(AsyncEvalOperatorFamily(), args, FutureT()), "async_eval");
  args.clear();
  auto g = Consume(ToFuture(f));
  f = Token();
  vsim::Quiesce();
  Result want = in.want;
  if (in.want.ok()) want = fail ? Result(SomeError(52)) : Result(MakeTok(34));
  CheckFuture("async_eval", g, want);
  g->v = want = in.want = absl::UnknownError("");
  Finish(ex);
}

void P18() {
  switch (Pick(22)) {
    case 0: AsFuture(); break;
    case 1: UnwrapFuture(); break;
    case 2: UnwrapStream(); break;
    case 3: StreamOfFuture(); break;
    case 4: FutureOfStream(); break;
    case 5: Iterable(); break;
    case 6: LocateFuture(); break;
    case 7: LocateStream(); break;
    case 8: Unpack(); break;
    case 9: Compose(false, false); break;
    case 10: Compose(false, true); break;
    case 11: Compose(true, false); break;
    case 12: Compose(true, true); break;
    case 13: Make(); break;
    case 14: FromSlice(); break;
    case 15: case 16: Wait(); break;
    case 17: Map(); break;
    case 18: ReduceOp(); break;
    case 19: Loop(); break;
    case 20: Call(); break;
    case 21: Eval(); break;
  }
  g_functors->clear();
  CheckNoLeaks();
}
vsim::Scenario s("operators", P18);

}  // namespace
}  // namespace sim

namespace koladata::functor {
absl::StatusOr<arolla::TypedValue> CallFunctorWithCompilationCache(const DataSlice& functor, absl::Span<const arolla::TypedRef> args,
                                                                   absl::Span<const std::string> kwnames) {
  return sim::g_functors->at(functor.item().value<int64_t>())(args, kwnames);
}
}  // namespace koladata::functor

namespace arolla {
QTypePtr QTypeTraits<expr::ExprOperatorPtr>::type() {
  static const auto* r = new SimpleQType(meta::type<expr::ExprOperatorPtr>(), "EXPR_OPERATOR");
  return r;
}
__attribute__((weak)) QTypePtr GetSequenceQType(QTypePtr t) {
  vsim::NoPreempt np;
  static auto* reg = new std::map<QTypePtr, QTypePtr>;
  auto& r = (*reg)[t];
  if (!r) r = new SimpleQType(meta::type<Sequence>(), "SEQUENCE[" + std::string(t->name()) + "]", t);
  return r;
}
}  // namespace arolla
