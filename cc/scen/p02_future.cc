// Futures: one value, every consumer exactly once, readers, abandonment.
#include "common.h"

namespace sim {
namespace {

struct Want {
  bool ok = false;
  int64_t val = 0;
  End end;
};
struct State {
  int calls = 0;
  bool added = false;
};

void CheckValue(const Want& want, const absl::StatusOr<TypedValue>& v) {
  if (v.ok() != want.ok) Violation("wrong-value", "a consumer got %s", v.ok() ? "a value" : std::string(v.status().message()).c_str());
  if (v.ok()) {
    if (GetTok(*v) != want.val) Violation("wrong-value", "a consumer got %ld instead of %ld", (long)GetTok(*v), (long)want.val);
  } else if (!(ToEnd(v.status()) == want.end)) {
    Violation("wrong-value", "a consumer got %s instead of %s", Str(ToEnd(v.status())).c_str(), Str(want.end).c_str());
  }
}

void AddOne(const FuturePtr& f, std::vector<std::shared_ptr<State>>* all, const std::shared_ptr<Want>& want, int style) {
  auto st = std::make_shared<State>();
  {
    vsim::NoPreempt np;
    all->push_back(st);
  }
  f->AddConsumer([st, want, style, all, p = Probe(),
                  again = style == 1 ? f : FuturePtr()](absl::StatusOr<TypedValue> v) mutable {
    {
      vsim::NoPreempt np;
      if (++st->calls > 1) Violation("consumed-twice", "a consumer was called twice");
    }
    CheckValue(*want, v);
    if (again) {  // from a consumer, register one more
      AddOne(again, all, want, 0);
      auto peek = again->PeekValue();
      if (!peek.has_value()) Violation("not-ready", "PeekValue() is empty inside a consumer");
      again.reset();
    }
  });
}

void P02() {
  auto want = std::make_shared<Want>();
  auto [future, writer] = MakeFuture(GetQType<Tok>());
  int how = Pick(4);
  absl::StatusOr<TypedValue> value(absl::UnknownError(""));
  if (how <= 1) {
    want->ok = true;
    want->val = 7;
    want->end = OkEnd();
    value = MakeTok(7);
  } else if (how == 2) {
    want->end = ToEnd(SomeError(4));
    value = SomeError(4);
    vsim::Count("input-error");
  } else {
    want->end = ToEnd(absl::CancelledError("orphaned"));
    vsim::Count("writer-dropped");
  }
  auto all = std::make_unique<std::vector<std::shared_ptr<State>>>();
  auto set_done = std::make_shared<bool>(false);
  vsim::Spawn(
      [w = std::make_shared<FutureWriter>(std::move(writer)), value, how, set_done]() mutable {
        Pause();
        Pause();
        FutureWriter mine = std::move(*w);
        w.reset();
        Pause();
        if (how <= 2) {
          std::move(mine).SetValue(std::move(value));
        } else {
          FutureWriter gone = std::move(mine);
        }
        vsim::NoPreempt np;
        *set_done = true;
      },
      "setter");
  value = absl::UnknownError("");
  std::vector<ReadPtr> reads;
  int nthreads = 1 + Pick(3);
  for (int i = 0; i < nthreads; ++i) {
    vsim::Spawn(
        [i, f = future, a = all.get(), want, set_done]() mutable {
          int n = 1 + Pick(3);
          bool seen = false;
          for (int k = 0; k < n; ++k) {
            Pause();
            int what = Pick(4);
            bool must;
            {
              vsim::NoPreempt np;
              must = *set_done;
            }
            if (what <= 1) {
              AddOne(f, a, want, what);
            } else {
              auto peek = f->PeekValue();
              if (!peek.has_value()) {
                if (must || seen) Violation("not-ready", "PeekValue() is empty after the value was set");
              } else {
                seen = true;
                if (peek->ok() != want->ok) Violation("wrong-value", "PeekValue() disagrees");
                if (peek->ok() && GetTok(**peek) != want->val) Violation("wrong-value", "PeekValue() shows %ld", (long)GetTok(**peek));
                if (!peek->ok() && !(ToEnd(peek->status()) == want->end)) Violation("wrong-value", "PeekValue() shows another error");
              }
              auto test = f->GetValueForTesting();
              if (seen && test.ok() != want->ok) Violation("wrong-value", "GetValueForTesting() disagrees");
            }
          }
          f.reset();
        },
        ThreadName("user", i));
  }
  int nreads = Pick(3);
  for (int i = 0; i < nreads; ++i) {
    reads.push_back(SpawnReader(StreamFromFuture(future), ThreadName("reader", i)));
  }
  AddOne(future, all.get(), want, Pick(2));
  future.reset();
  vsim::Quiesce();
  for (auto& s : *all) {
    if (s->calls != 1) Violation("not-consumed", "a consumer was called %d times", s->calls);
  }
  for (auto& r : reads) {
    std::vector<int64_t> v;
    if (want->ok) v.push_back(want->val);
    if (r->vals != v || !(r->end == want->end)) Violation("wrong-value", "the future's stream is %s %s", Str(r->vals).c_str(), Str(r->end).c_str());
  }
  CheckNoLeaks();
}
vsim::Scenario s("future", P02);

}  // namespace
}  // namespace sim
