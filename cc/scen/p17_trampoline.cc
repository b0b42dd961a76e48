// TrampolineExecutor: callbacks that enqueue callbacks, fail, run executors of
// their own; several threads, each with its executors.
#include <set>

#include "common.h"
#include "koladata/internal/op_utils/trampoline_executor.h"

namespace sim {
namespace {
using koladata::internal::TrampolineExecutor;

struct Node {
  std::vector<int> kids;      // enqueued while it runs
  int fail_after = -1;        // fails after this many of them
  bool big = false;           // captures much
  bool pauses = false;
  bool by_helper = false;     // a subroutine enqueues the second half
  int inner = -1;             // runs that program with an executor of its own
  bool forgives = false;      // and ignores how it ended
};
struct Program {
  std::vector<Node> nodes;    // 0 is the root
};
enum State : char { kNone, kPending, kRunning, kDone, kDestroyed };
struct Trace {
  const Program* program;
  std::vector<State> state;
  std::vector<int> called;
  int64_t alive = 0;
  uintptr_t lowest = UINTPTR_MAX, highest = 0;
  explicit Trace(const Program* p) : program(p), state(p->nodes.size(), kNone) {}
};
struct World {
  std::vector<Program> programs;
};

absl::Status Failure(int program, int node) {
  return absl::InvalidArgumentError(absl::StrCat("fail ", program, ".", node));
}

// Lives in a callback; knows where it is.
class Probe {
 public:
  Probe(Trace* t, int node) : t_(t), node_(node) { ++t->alive; }
  Probe(Probe&& o) noexcept : t_(o.t_), node_(o.node_) { o.t_ = nullptr; }
  Probe& operator=(Probe&& o) noexcept {
    if (this != &o) {
      Gone();
      t_ = o.t_;
      node_ = o.node_;
      o.t_ = nullptr;
    }
    return *this;
  }
  ~Probe() { Gone(); }
  bool here() const { return t_ != nullptr; }

 private:
  void Gone() {
    if (!t_) return;
    vsim::NoPreempt np;
    --t_->alive;
    State& s = t_->state[node_];
    if (s == kRunning) Violation("destroyed-early", "callback %d is destroyed while it runs", node_);
    if (s == kDestroyed) Violation("destroyed-twice", "callback %d is destroyed twice", node_);
    s = s == kDone ? kDone : kDestroyed;
    t_ = nullptr;
  }
  Trace* t_;
  int node_;
};

absl::Status RunProgram(World& w, int which, Trace& trace);

absl::Status RunNode(World& w, int which, Trace& t, int i, TrampolineExecutor& ex);

void Enqueue(World& w, int which, Trace& t, int i, TrampolineExecutor& ex) {
  {
    vsim::NoPreempt np;
    t.state[i] = kPending;
  }
  const Node& n = w.programs[which].nodes[i];
  Probe probe(&t, i);
  if (n.big) {
    std::array<int, 40> padding;
    padding.fill(i);
    ex.Enqueue([&w, which, &t, i, &ex, probe = std::move(probe), padding]() {
      absl::Status s = RunNode(w, which, t, i, ex);
      for (int v : padding) {
        if (v != i) Violation("corrupted", "what callback %d captured has changed", i);
      }
      if (!probe.here()) Violation("corrupted", "callback %d was moved away while it ran", i);
      vsim::NoPreempt np;
      t.state[i] = kDone;
      return s;
    });
  } else {
    ex.Enqueue([&w, which, &t, i, &ex, probe = std::make_unique<Probe>(std::move(probe))]() {
      absl::Status s = RunNode(w, which, t, i, ex);
      if (!probe || !probe->here()) Violation("corrupted", "callback %d was moved away while it ran", i);
      vsim::NoPreempt np;
      t.state[i] = kDone;
      return s;
    });
  }
}
absl::Status RunNode(World& w, int which, Trace& t, int i, TrampolineExecutor& ex) {
  const Node& n = w.programs[which].nodes[i];
  {
    vsim::NoPreempt np;
    if (i) {
      State s = t.state[i];
      if (s != kPending) Violation("wrong-call", "callback %d is called %s", i, s == kDestroyed ? "after it was destroyed" : "twice");
      int64_t pending = 0;
      for (State q : t.state) pending += q == kPending;
      // What is alive: itself, those to come, and maybe the one before.
      if (t.alive < pending || t.alive > pending + 1) Violation("kept", "%lld callbacks are alive, %lld are still to be called", (long long)t.alive, (long long)pending);
      t.state[i] = kRunning;
    }
    t.called.push_back(i);
    char here;
    t.lowest = std::min(t.lowest, (uintptr_t)&here);
    t.highest = std::max(t.highest, (uintptr_t)&here);
  }
  if (n.pauses) vsim::Pause();
  if (n.inner >= 0) {
    Trace inner(&w.programs[n.inner]);
    absl::Status s = RunProgram(w, n.inner, inner);
    if (!s.ok() && !n.forgives) return s;
  }
  for (int k = 0; k < (int)n.kids.size(); ++k) {
    if (n.fail_after == k) return Failure(which, i);
    if (n.by_helper && k == (int)n.kids.size() / 2) {
      [&] { for (int j = k; j < (int)n.kids.size() && j != n.fail_after; ++j) Enqueue(w, which, t, n.kids[j], ex); }();
      break;
    }
    Enqueue(w, which, t, n.kids[k], ex);
  }
  if (n.fail_after >= 0) return Failure(which, i);
  return absl::OkStatus();
}
// What recursion would do: the calls in order, and how it ends.
bool Expected(const World& w, int which, std::vector<int>* calls, absl::Status* end) {
  const Program& p = w.programs[which];
  std::vector<int> stack = {0};
  while (!stack.empty()) {
    int i = stack.back();
    stack.pop_back();
    calls->push_back(i);
    const Node& n = p.nodes[i];
    if (n.inner >= 0) {
      std::vector<int> ignored;
      absl::Status s;
      Expected(w, n.inner, &ignored, &s);
      if (!s.ok() && !n.forgives) {
        *end = s;
        return false;
      }
    }
    if (n.fail_after >= 0) {
      *end = Failure(which, i);
      return false;
    }
    stack.insert(stack.end(), n.kids.rbegin(), n.kids.rend());
  }
  *end = absl::OkStatus();
  return true;
}
absl::Status RunProgram(World& w, int which, Trace& t) {
  absl::Status s = TrampolineExecutor::Run([&](TrampolineExecutor& ex) { return RunNode(w, which, t, 0, ex); });
  vsim::NoPreempt np;
  std::vector<int> calls;
  absl::Status end;
  Expected(w, which, &calls, &end);
  if (s != end) Violation("wrong-status", "the executor ended with %s, expected %s", s.ToString().c_str(), end.ToString().c_str());
  for (size_t k = 0; k < std::max(calls.size(), t.called.size()); ++k) {
    int e = k < calls.size() ? calls[k] : -1, c = k < t.called.size() ? t.called[k] : -1;
    if (e != c) Violation("wrong-order", "call %d is of callback %d, recursion calls %d", (int)k, c, e);
  }
  if (t.alive != 0) Violation("leak", "%lld callbacks are alive after the executor returned", (long long)t.alive);
  for (size_t i = 1; i < t.state.size(); ++i) {
    if (t.state[i] == kPending || t.state[i] == kRunning) Violation("leak", "callback %d was neither called nor destroyed", (int)i);
  }
  return s;
}

Program MakeProgram(int programs, int size) {
  Program p;
  p.nodes.resize(1);
  int bushy = Pick(4), inner = 2;
  for (int i = 1; i < size; ++i) {
    int parent = bushy == 0 ? i - 1 : bushy == 1 ? Pick(i) : bushy == 2 ? std::max(0, i - 1 - Pick(3)) : Pick(2) ? 0 : i - 1;
    p.nodes.emplace_back();
    p.nodes[parent].kids.push_back(i);
    Node& n = p.nodes.back();
    n.big = Pick(2);
    n.pauses = Chance(1, 4);
    n.by_helper = Chance(1, 4);
    if (programs && inner && Chance(1, 8)) {
      --inner;
      n.inner = Pick(programs);
      n.forgives = Pick(2);
    }
  }
  if (Chance(1, 3)) {
    Node& n = p.nodes[Pick(size)];
    n.fail_after = Pick((int)n.kids.size() + 1);
  }
  return p;
}

// The example of the header: a product of the numbers up to n, modulo a prime.
constexpr int64_t kMod = 1000003;
absl::Status Product(int n, int fail_at, TrampolineExecutor& ex, int64_t& result) {
  if (n == fail_at) return absl::NotFoundError("fail");
  if (n == 0) {
    result = 1;
    return absl::OkStatus();
  }
  auto y = std::make_unique<int64_t>(-1);
  ex.Enqueue([&ex, n, fail_at, y = y.get()] { return Product(n - 1, fail_at, ex, *y); });
  ex.Enqueue([n, y = std::move(y), &result] {
    result = n % kMod * *y % kMod;
    return absl::OkStatus();
  });
  return absl::OkStatus();
}
void RunProduct() {
  int n = Pick(60);
  int fail_at = Chance(1, 4) ? Pick(n + 1) : -1;
  int64_t result = -7;
  absl::Status s = TrampolineExecutor::Run([&](TrampolineExecutor& ex) { return Product(n, fail_at, ex, result); });
  int64_t want = 1;
  for (int k = 1; k <= n; ++k) want = want * k % kMod;
  if (fail_at >= 0 ? s != absl::NotFoundError("fail") || result != -7 : !s.ok() || result != want) {
    Violation("wrong-result", "the product of %d numbers is %lld (%s), expected %lld", n, (long long)result, s.ToString().c_str(), (long long)want);
  }
}
// Recursion that is deep: no stack, and no more callbacks than necessary.
void RunDeep() {
  int depth = 500 + Pick(500), left = depth;
  int64_t alive = 0, most = 0;
  uintptr_t lowest = UINTPTR_MAX, highest = 0;
  struct Count {
    int64_t* n;
    explicit Count(int64_t* p) : n(p) { ++*n; }
    ~Count() { --*n; }
  };
  std::function<absl::Status(TrampolineExecutor&)> f = [&](TrampolineExecutor& ex) {
    char here;
    lowest = std::min(lowest, (uintptr_t)&here);
    highest = std::max(highest, (uintptr_t)&here);
    most = std::max(most, alive);
    if (left-- == 0) return absl::OkStatus();
    ex.Enqueue([&, c = std::make_unique<Count>(&alive)] { return f(ex); });
    return absl::OkStatus();
  };
  absl::Status s = TrampolineExecutor::Run([&](TrampolineExecutor& ex) { return f(ex); });
  if (!s.ok() || left != -1) Violation("wrong-result", "%d of %d callbacks were not called", left + 1, depth);
  if (highest - lowest > 4096) Violation("deep-stack", "%d callbacks need %lld bytes of stack", depth, (long long)(highest - lowest));
  if (most > 4) Violation("kept", "%lld callbacks are alive at the same time, one is needed", (long long)most);
  vsim::Count("deep-recursion");
}

void Run() {
  World w;
  int programs = 1 + Pick(4);
  for (int i = 0; i < programs; ++i) w.programs.push_back(MakeProgram(i, 1 + Pick(Chance(1, 6) ? 80 : 14)));
  int threads = 1 + Pick(3);
  for (int t = 0; t < threads; ++t) {
    vsim::Spawn([&w, programs] {
      int n = 1 + Pick(3);
      for (int i = 0; i < n; ++i) {
        if (Chance(1, 6)) {
          RunProduct();
        } else {
          int which = Pick(programs);
          Trace trace(&w.programs[which]);
          absl::Status s = RunProgram(w, which, trace);
          if (!s.ok()) vsim::Count("callback-fails");
        }
      }
      if (Chance(1, 40)) RunDeep();
    }, "recursion");
  }
  vsim::Quiesce();
}
vsim::Scenario s_trampoline("trampoline", Run);
}  // namespace
}  // namespace sim
