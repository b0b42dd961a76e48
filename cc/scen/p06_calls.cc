// stream.call with awaited arguments, and graphs of async_eval.
#include <algorithm>
#include <set>

#include "arolla/expr/expr_operator.h"
#include "arolla/qtype/derived_qtype.h"
#include "common.h"
#include "koladata/functor/parallel/async_eval.h"
#include "koladata/functor/parallel/stream_call.h"
#include "pipeline.h"

namespace sim {
namespace {

// A future and how it ends; maybe set later, by another thread.
struct Fut {
  FuturePtr future;
  int64_t val = 0;
  End end;  // OK, or the error
};
Fut MakeFut(int64_t v, bool errors = true) {
  Fut f;
  auto [future, writer] = MakeFuture(GetQType<Tok>());
  f.future = future;
  f.val = v;
  int how = errors && Chance(1, 6) ? 1 + Pick(2) : 0;
  absl::Status st = how == 1 ? SomeError(v) : how == 2 ? absl::CancelledError("orphaned") : absl::OkStatus();
  f.end = ToEnd(st);
  if (how) vsim::Count(how == 1 ? "input-error" : "writer-dropped");
  auto set = [v, how, st](FutureWriter w) {
    if (how == 0) std::move(w).SetValue(MakeTok(v));
    if (how == 1) std::move(w).SetValue(st);
  };
  if (Pick(2) == 0) {
    set(std::move(writer));
  } else {
    vsim::Spawn([set, w = std::make_shared<FutureWriter>(std::move(writer))]() mutable {
      Pause();
      auto mine = std::move(*w);
      w.reset();
      set(std::move(mine));
    }, ThreadName("future", v / 100));
  }
  return f;
}

void Call() {
  Exec ex = MakeExec();
  struct Arg {
    int kind = 0;  // 0 value, 1 awaited stream, 2 awaited future, 3 stream as is
    int64_t want = 0;
    End end = OkEnd();
  };
  auto args = std::make_shared<std::vector<Arg>>();
  std::vector<TypedValue> vals;
  int n = Pick(4);
  bool bad = false, exact = true;
  End end = OkEnd();
  for (int i = 0; i < n; ++i) {
    Arg a;
    a.kind = Pick(4);
    int64_t base = 100 * (i + 1);
    a.want = base + 1;
    if (a.kind == 0) vals.push_back(MakeTok(a.want));
    if (a.kind == 1) {
      SourceOptions so;
      so.base = base;
      so.max_items = 3;
      so.single = true;
      Source s = MakeSource(so);
      vals.push_back(MakeStreamQValue(s.stream));
      a.end = s.end;
      bool counts = s.vals.size() > 1 || (s.vals.empty() && s.end.ok());
      if (counts) {
        a.end = ToEnd(absl::InvalidArgumentError(""));
        vsim::Count("wrong-number-of-items");
      }
      if (!bad && !a.end.ok()) exact = !counts;
    }
    if (a.kind == 2) {
      Fut f = MakeFut(a.want);
      a.end = f.end;
      vals.push_back(MakeFutureQValue(f.future));
    }
    if (a.kind == 3) {
      auto [s, w] = MakeStream(GetQType<Tok>());
      w->Write(MakeTok(a.want).AsRef());
      std::move(*w).Close();
      vals.push_back(MakeStreamQValue(s));
    }
    if (!bad && !a.end.ok()) {
      bad = true;
      end = a.end;
    }
    args->push_back(a);
  }
  struct State {
    int calls = 0;
    Source src;
  };
  auto st = std::make_shared<State>();
  int result = Pick(6);
  std::vector<int64_t> want;
  if (!bad) {
    if (result <= 1) want = {77};
    if (result == 4) end = ToEnd(SomeError(9)), vsim::Count("functor-error");
    if (result == 5) end = ToEnd(absl::InvalidArgumentError("")), exact = false, vsim::Count("functor-error");
  }
  auto make_functor = [&] { return [args, st, result, p = Probe()](absl::Span<const TypedRef> got) -> absl::StatusOr<TypedValue> {
    {
      vsim::NoPreempt np;
      if (++st->calls > 1) Violation("called-twice", "stream.call called the functor twice");
    }
    if (got.size() != args->size()) Violation("wrong-arguments", "the functor got %zu arguments", got.size());
    for (size_t i = 0; i < got.size(); ++i) {
      const Arg& a = (*args)[i];
      if (a.kind == 3) {
        if (!IsStreamQType(got[i].GetType())) Violation("wrong-arguments", "argument %zu is not a stream", i);
        Read r = ReadClosed(got[i].UnsafeAs<StreamPtr>());
        if (r.vals != std::vector<int64_t>{a.want}) Violation("wrong-arguments", "argument %zu is the wrong stream", i);
      } else if (GetTok(got[i]) != a.want) {
        Violation("wrong-arguments", "argument %zu is %ld, not %ld", i, (long)GetTok(got[i]), (long)a.want);
      }
      if (!a.end.ok()) Violation("called-on-error", "the functor was called although argument %zu failed", i);
    }
    if (Pick(3) == 0) Pause();
    if (result <= 1) return MakeTok(77);
    if (result <= 3) {
      SourceOptions so;
      so.base = 700;
      Source s = MakeSource(so);
      auto q = MakeStreamQValue(s.stream);
      s.stream.reset();
      vsim::NoPreempt np;
      st->src = s;
      return q;
    }
    if (result == 4) return SomeError(9);
    return TypedValue::FromValue(Tok1(1));
  }; };
  StreamPtr out;
  {
    std::vector<TypedRef> refs;
    for (size_t i = 0; i < vals.size(); ++i) {
      TypedRef r = vals[i].AsRef();
      refs.push_back((*args)[i].kind == 3 ? r : MakeStreamCallAwaitArg(r));
    }
    auto r = StreamCall(ex.ptr, make_functor(), GetQType<Tok>(), refs);
    if (!r.ok()) Violation("wrong-end", "stream.call failed");
    out = *std::move(r);
    std::vector<TypedRef>().swap(refs);
    if (Pick(2)) vals.clear();
  }
  auto read = SpawnReader(out, "reader");
  out.reset();
  vsim::Quiesce();
  vals.clear();
  if (!bad && (result == 2 || result == 3)) {
    want = st->src.vals;
    end = st->src.end;
  }
  if (st->calls != !bad) Violation("wrong-calls", "the functor was called %d times", st->calls);
  if (read->vals != want) Violation("wrong-items", "stream.call gave %s %s, expected %s %s", Str(read->vals).c_str(), Str(read->end).c_str(), Str(want).c_str(), Str(end).c_str());
  if (exact ? !(read->end == end) : !read->end.closed || read->end.code != end.code) {
    Violation("wrong-end", "stream.call ended with %s, expected %s", Str(read->end).c_str(), Str(end).c_str());
  }
  st->src.stream.reset();
  Finish(ex);
}
vsim::Scenario s("call", Call);

void Eval() {
  Exec ex = MakeExec();
  struct Node {
    FuturePtr future;
    bool op = false;
    bool failing = false;
    std::vector<int> in;   // node indices; negative: a constant
    int64_t val = 0;
    bool ok = true;
    std::vector<End> errors;  // possible errors
    int calls = 0;
    int seen = 0;
  };
  auto nodes = std::make_shared<std::vector<Node>>();
  int nsrc = 1 + Pick(3), nops = 1 + Pick(4);
  nodes->resize(nsrc + nops);
  for (int i = 0; i < nsrc; ++i) {
    Fut f = MakeFut(100 * (i + 1) + 1);
    Node& nd = (*nodes)[i];
    nd.future = f.future;
    nd.val = f.val;
    nd.ok = f.end.ok();
    if (!nd.ok) nd.errors = {f.end};
  }
  for (int i = nsrc; i < nsrc + nops; ++i) {
    Node& nd = (*nodes)[i];
    nd.op = true;
    int k = 1 + Pick(3);
    int64_t v = i;
    for (int j = 0; j < k; ++j) {
      if (Pick(4) == 1) {
        nd.in.push_back(-1 - j);
        v = (v * 31 + 40 + j) % 100003;
      } else {
        int from = Pick(i);
        nd.in.push_back(from);
        const Node& src = (*nodes)[from];
        v = (v * 31 + src.val) % 100003;
        if (!src.ok) nd.ok = false;
        nd.errors.insert(nd.errors.end(), src.errors.begin(), src.errors.end());
      }
    }
    nd.val = v;
    if (nd.ok && Chance(1, 8)) {
      nd.failing = true;
      nd.ok = false;
      nd.errors = {ToEnd(SomeError(800 + i))};
      vsim::Count("functor-error");
    }
  }
  for (int i = nsrc; i < nsrc + nops; ++i) {
    Node& nd = (*nodes)[i];
    auto op = std::make_shared<arolla::expr::ExprOperator>([nodes, i](absl::Span<const TypedRef> in) -> absl::StatusOr<TypedValue> {
      Node& nd = (*nodes)[i];
      {
        vsim::NoPreempt np;
        if (++nd.calls > 1) Violation("called-twice", "an operator was evaluated twice");
      }
      if (in.size() != nd.in.size()) Violation("wrong-arguments", "an operator got %zu arguments", in.size());
      int64_t v = i;
      for (size_t j = 0; j < in.size(); ++j) {
        int64_t want = nd.in[j] < 0 ? 40 + j : (*nodes)[nd.in[j]].val;
        if (GetTok(in[j]) != want) Violation("wrong-arguments", "argument %zu is %ld, not %ld", j, (long)GetTok(in[j]), (long)want);
        v = (v * 31 + GetTok(in[j])) % 100003;
      }
      if (Pick(3) == 0) Pause();
      if (nd.failing) return SomeError(800 + i);
      return MakeTok(v);
    });
    std::vector<TypedValue> vals;
    for (size_t j = 0; j < nd.in.size(); ++j) {
      if (nd.in[j] < 0) {
        vals.push_back(MakeTok(40 + j));
      } else {
        vals.push_back(MakeFutureQValue((*nodes)[nd.in[j]].future));
      }
    }
    std::vector<TypedRef> refs;
    for (auto& v : vals) refs.push_back(v.AsRef());
    auto r = AsyncEvalWithCompilationCache(ex.ptr, op, refs, GetQType<Tok>());
    if (!r.ok()) Violation("wrong-end", "async_eval failed");
    nd.future = *std::move(r);
    if (Pick(4) == 0) Pause();
  }
  for (size_t i = 0; i < nodes->size(); ++i) {
    Node& nd = (*nodes)[i];
    nd.future->AddConsumer([nodes, i](absl::StatusOr<TypedValue> v) {
      vsim::NoPreempt np;
      Node& nd = (*nodes)[i];
      if (++nd.seen > 1) Violation("consumed-twice", "a consumer was called twice");
      if (v.ok() != nd.ok) Violation("wrong-value", "node %zu has %s", i, v.ok() ? "a value" : Str(ToEnd(v.status())).c_str());
      if (v.ok()) {
        if (GetTok(*v) != nd.val) Violation("wrong-value", "node %zu is %ld, not %ld", i, (long)GetTok(*v), (long)nd.val);
      } else {
        End e = ToEnd(v.status());
        bool found = false;
        for (auto& x : nd.errors) found |= x == e;
        if (!found) Violation("wrong-end", "node %zu failed with %s", i, Str(e).c_str());
      }
    });
  }
  for (auto& nd : *nodes) nd.future.reset();
  vsim::Quiesce();
  for (size_t i = 0; i < nodes->size(); ++i) {
    Node& nd = (*nodes)[i];
    if (nd.seen != 1) Violation("not-consumed", "the consumer of node %zu was called %d times", i, nd.seen);
    bool inputs_ok = nd.op;
    for (int j : nd.in) inputs_ok &= j < 0 || (*nodes)[j].ok;
    if (nd.calls != inputs_ok) Violation("wrong-calls", "the operator of node %zu was evaluated %d times", i, nd.calls);
  }
  Finish(ex);
}
vsim::Scenario s2("eval", Eval);

}  // namespace
}  // namespace sim
