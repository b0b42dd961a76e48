// StreamChain and StreamInterleave.
#include <algorithm>
#include <map>

#include "common.h"
#include "koladata/functor/parallel/stream_composition.h"
#include "pipeline.h"

namespace sim {
namespace {

struct Input {
  std::vector<int64_t> vals;
  End end;
};

// `plan[t]` lists the inputs added by thread t, in order.
template <typename C>
std::vector<std::vector<Input>> Drive(std::shared_ptr<C> c, int nthreads, std::shared_ptr<int> closed_early) {
  std::vector<std::vector<Input>> plan(nthreads);
  struct Add {
    int kind;
    StreamPtr stream;
    int64_t item;
    absl::Status error;
  };
  for (int t = 0; t < nthreads; ++t) {
    auto adds = std::make_shared<std::vector<Add>>();
    int n = 1 + Pick(4);
    for (int k = 0; k < n; ++k) {
      Add a{Pick(4)};
      Input in;
      int64_t base = t * 10000 + k * 100;
      if (a.kind == 2) {
        a.item = base + 1;
        in.vals = {base + 1};
        in.end = OkEnd();
      } else if (a.kind == 3 && Chance(1, 2)) {
        a.error = SomeError(base + 7);
        in.end = ToEnd(a.error);
        vsim::Count("input-error");
      } else {
        a.kind = 0;
        SourceOptions so;
        so.base = base;
        so.max_items = 4;
        Source s = MakeSource(so);
        a.stream = s.stream;
        in.vals = s.vals;
        in.end = s.end;
      }
      plan[t].push_back(in);
      adds->push_back(std::move(a));
    }
    auto body = [c, adds, closed_early]() mutable {
      for (auto& a : *adds) {
        if (Pick(2)) Pause();
        if (c->Orphaned() && !*closed_early) {
          // Allowed only once an error has closed the stream.
          vsim::Log("orphaned");
        }
        if (a.kind == 2) {
          auto v = MakeTok(a.item);
          c->AddItem(v.AsRef());
        } else if (a.kind == 3) {
          c->AddError(a.error);
        } else {
          c->Add(a.stream);
        }
        a.stream.reset();
      }
      c.reset();
      adds.reset();
    };
    if (t == 0 && Pick(2)) {
      body();
    } else {
      vsim::Spawn(std::move(body), ThreadName("adder", t));
    }
  }
  return plan;
}

void Chain() {
  auto [stream, writer] = MakeStream(GetQType<Tok>(), Pick(2));
  auto chain = std::make_shared<StreamChain>(std::move(writer));
  auto read = SpawnReader(stream, "reader");
  auto read2 = Pick(2) ? SpawnReader(stream, "reader2") : nullptr;
  stream.reset();
  int nthreads = Pick(3) == 0 ? 2 : 1;
  auto plan = Drive(std::move(chain), nthreads, std::make_shared<int>(0));
  vsim::Quiesce();
  // The output must be a concatenation of whole inputs, respecting the order
  // of each adder, up to the first error.
  std::vector<size_t> next(nthreads, 0);
  size_t pos = 0;
  bool done = false;
  auto fail = [&](const char* why) {
    std::string p;
    for (auto& t : plan) {
      p += " {";
      for (auto& i : t) p += Str(i.vals) + " " + Str(i.end) + "; ";
      p += "}";
    }
    Violation("wrong-chain", "%s: %s %s from%s", why, Str(read->vals).c_str(), Str(read->end).c_str(), p.c_str());
  };
  // Skips inputs without items that ended well; they leave no trace.
  while (!done) {
    if (pos == read->vals.size()) break;
    int t = read->vals[pos] / 10000;
    if (t >= nthreads) fail("an unknown item");
    while (next[t] < plan[t].size() && plan[t][next[t]].vals.empty() && plan[t][next[t]].end.ok()) ++next[t];
    if (next[t] >= plan[t].size()) fail("too many items");
    auto& in = plan[t][next[t]++];
    for (int64_t v : in.vals) {
      if (pos >= read->vals.size() || read->vals[pos] != v) fail("an input is not contiguous and complete");
      ++pos;
    }
    if (!in.end.ok()) {
      if (pos != read->vals.size()) fail("items after an error");
      if (!(read->end == in.end)) fail("the wrong end");
      done = true;
    }
  }
  if (!done) {
    if (read->end.ok()) {
      for (int t = 0; t < nthreads; ++t) {
        for (; next[t] < plan[t].size(); ++next[t]) {
          auto& in = plan[t][next[t]];
          if (!in.vals.empty() || !in.end.ok()) fail("inputs are missing");
        }
      }
    } else {
      // An input without items must have failed at this point.
      bool found = false;
      for (int t = 0; t < nthreads; ++t) {
        size_t k = next[t];
        while (k < plan[t].size() && plan[t][k].vals.empty() && plan[t][k].end.ok()) ++k;
        found |= k < plan[t].size() && plan[t][k].vals.empty() && plan[t][k].end == read->end;
      }
      if (!found) fail("the wrong end");
    }
  }
  if (read2 && (read2->vals != read->vals || !(read2->end == read->end))) fail("readers disagree");
  CheckNoLeaks();
}
vsim::Scenario s("chain", Chain);

void Interleave() {
  auto [stream, writer] = MakeStream(GetQType<Tok>(), Pick(2));
  auto c = std::make_shared<StreamInterleave>(std::move(writer));
  auto read = SpawnReader(stream, "reader");
  stream.reset();
  int nthreads = 1 + Pick(2);
  auto plan = Drive(std::move(c), nthreads, std::make_shared<int>(0));
  vsim::Quiesce();
  std::map<int64_t, std::pair<int, int>> where;  // value -> (input, index)
  std::vector<const Input*> inputs;
  bool errors = false;
  for (auto& t : plan) {
    for (auto& in : t) {
      for (size_t i = 0; i < in.vals.size(); ++i) where[in.vals[i]] = {(int)inputs.size(), (int)i};
      inputs.push_back(&in);
      errors |= !in.end.ok();
    }
  }
  std::vector<int> seen(inputs.size(), 0);
  for (int64_t v : read->vals) {
    auto it = where.find(v);
    if (it == where.end()) Violation("wrong-items", "an unknown item %ld", (long)v);
    if (seen[it->second.first]++ != it->second.second) {
      Violation("wrong-items", "the items of an input are lost, repeated or out of order: %s", Str(read->vals).c_str());
    }
  }
  if (!errors) {
    if (!read->end.ok()) Violation("wrong-end", "ended with %s", Str(read->end).c_str());
    for (size_t i = 0; i < inputs.size(); ++i) {
      if (seen[i] != (int)inputs[i]->vals.size()) Violation("wrong-items", "items are missing: %s", Str(read->vals).c_str());
    }
  } else {
    bool found = false;
    for (size_t i = 0; i < inputs.size(); ++i) {
      found |= !inputs[i]->end.ok() && inputs[i]->end == read->end && seen[i] == (int)inputs[i]->vals.size();
    }
    if (!found) Violation("wrong-end", "ended with %s, after items %s", Str(read->end).c_str(), Str(read->vals).c_str());
  }
  CheckNoLeaks();
}
vsim::Scenario s2("interleave", Interleave);

}  // namespace
}  // namespace sim
