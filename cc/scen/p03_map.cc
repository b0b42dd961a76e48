// stream.map and stream.map_unordered.
#include <algorithm>
#include <map>

#include "common.h"
#include "koladata/functor/parallel/stream_map.h"
#include "pipeline.h"

namespace sim {
namespace {

struct Calls {
  std::map<int64_t, int> n;
  int running = 0, max_running = 0;
};

void P03() {
  const bool ordered = Pick(2) == 0;
  Exec ex = MakeExec();
  SourceOptions so;
  so.max_items = 9;
  Source src = MakeSource(so);
  auto calls = std::make_shared<Calls>();
  // Which items the functor fails on.
  std::vector<int> bad(src.vals.size() + 1, 0);
  for (size_t i = 0; i < src.vals.size(); ++i) {
    if (Chance(1, 8)) {
      bad[i] = 1 + Pick(2);
      vsim::Count("functor-error");
    }
  }
  auto out = [&] {
  auto functor = [calls, bad, p = Probe()](TypedRef r) -> absl::StatusOr<TypedValue> {
    int64_t v = GetTok(r);
    {
      vsim::NoPreempt np;
      if (++calls->n[v] > 1) Violation("called-twice", "the functor was called twice for item %ld", (long)v);
      if (v < 1 || v > (int64_t)bad.size()) Violation("wrong-item", "the functor was called for %ld", (long)v);
    }
    if (Pick(3) == 0) Pause();
    if (GetTok(r) != v) Violation("ref-changed", "the argument changed during the call");
    if (bad[v - 1] == 1) return SomeError(v);
    if (bad[v - 1] == 2) return TypedValue::FromValue(Tok1(v));
    return MakeTok(v * 10);
  };
  return ordered ? StreamMap(ex.ptr, src.stream, GetQType<Tok>(), std::move(functor))
                 : StreamMapUnordered(ex.ptr, src.stream, GetQType<Tok>(), std::move(functor));
  }();
  bool keep_input = Pick(2);
  if (!keep_input) src.stream.reset();
  auto read = SpawnReader(out, "reader");
  auto read2 = Pick(2) ? SpawnReader(out, "reader2") : nullptr;
  out.reset();
  vsim::Quiesce();

  const std::string type_error = "functor returned a value of the wrong type";
  auto is_end_of = [&](const End& e, size_t i) {
    if (bad[i] == 1) return e == ToEnd(SomeError(i + 1));
    return e.closed && e.code == (int)absl::StatusCode::kInvalidArgument && e.msg.rfind(type_error, 0) == 0;
  };
  size_t n = src.vals.size(), first_bad = n;
  for (size_t i = 0; i < n; ++i) {
    if (bad[i] && first_bad == n) first_bad = i;
  }
  if (ordered) {
    std::vector<int64_t> want;
    for (size_t i = 0; i < first_bad; ++i) want.push_back(src.vals[i] * 10);
    if (read->vals != want) Violation("wrong-items", "map gave %s, expected %s", Str(read->vals).c_str(), Str(want).c_str());
    bool end_ok = first_bad < n ? is_end_of(read->end, first_bad) : read->end == src.end;
    if (!end_ok) Violation("wrong-end", "map ended with %s (first failing item: %zu of %zu, input: %s)", Str(read->end).c_str(), first_bad, n, Str(src.end).c_str());
  } else {
    std::map<int64_t, int> seen;
    for (int64_t v : read->vals) {
      if (v % 10 || v < 10 || v > (int64_t)n * 10 || bad[v / 10 - 1]) Violation("wrong-items", "map_unordered produced %ld", (long)v);
      if (++seen[v] > 1) Violation("duplicate", "map_unordered produced %ld twice", (long)v);
    }
    if (first_bad == n && src.end.ok()) {
      if (seen.size() != n) Violation("wrong-items", "map_unordered gave %s of %zu items", Str(read->vals).c_str(), n);
      if (!read->end.ok()) Violation("wrong-end", "map_unordered ended with %s", Str(read->end).c_str());
    } else {
      bool found = !src.end.ok() && read->end == src.end;
      for (size_t i = 0; i < n; ++i) found |= bad[i] && is_end_of(read->end, i);
      if (!found) Violation("wrong-end", "map_unordered ended with %s", Str(read->end).c_str());
    }
  }
  if (read2 && (read2->vals != read->vals || !(read2->end == read->end))) Violation("readers-disagree", "two readers of map's result disagree");
  if (first_bad == n && src.end.ok() && calls->n.size() != n) Violation("not-called", "the functor was called for %zu of %zu items", calls->n.size(), n);
  src.stream.reset();
  Finish(ex);
}
vsim::Scenario s("map", P03);

}  // namespace
}  // namespace sim
