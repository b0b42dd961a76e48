// Executors: tasks exactly once, in the right place, with the right context.
#include "common.h"
#include "koladata/functor/parallel/context_guard.h"
#include "koladata/functor/parallel/get_default_executor.h"
#include "koladata/functor/parallel/make_executor.h"

namespace sim {
namespace {

enum { kLiveCtx = 3, kLivePools = 15 };

struct World;

struct Ex {
  std::weak_ptr<Executor> weak;
  Executor* raw = nullptr;
  int base = -1;            // of a derived executor
  int root = 0;             // the executor that has the threads
  bool inline_tasks = false;
  bool discards = false;
  bool shared = false;      // never goes away
  int limit = 0;
  int running = 0;
  std::vector<int> chain;   // the executors whose contexts a task is in, outermost first
};

struct Task {
  int runs = 0;
  int ex = 0;
  bool done = false;
  int64_t payload = 0;      // written before Schedule(); read by the task
};

struct World {
  std::vector<Ex> ex;
  std::vector<ExecutorPtr> own;       // references that threads copy and drop
  std::vector<std::shared_ptr<Task>> tasks;
  int left = 0;
  // Per thread: the contexts that are open, the current executor, and whether
  // a task runs.
  std::vector<int> open[64];
  int current[64] = {};               // index + 1; 0 = none
  int depth[64] = {};                 // of tasks
};
World* g_w = nullptr;

template <int Size>
struct Ctx {
  int id;
  char pad[Size];
  explicit Ctx(int i) : id(i) {
    vsim::NoPreempt np;
    vsim::Counter(kLiveCtx, 1);
    g_w->open[vsim::CurrentThread()].push_back(id);
  }
  Ctx(const Ctx&) = delete;
  ~Ctx() {
    vsim::NoPreempt np;
    vsim::Counter(kLiveCtx, -1);
    auto& s = g_w->open[vsim::CurrentThread()];
    if (s.empty() || s.back() != id) Violation("wrong-context", "the context of executor %d is destroyed out of order, or on another thread", id);
    s.pop_back();
  }
};

std::string Name(int i) { return i < 0 ? "none" : "executor " + std::to_string(i); }

// The thread-local state is as the model says.
void CheckHere(const char* where) {
  auto cur = CurrentExecutor();
  bool is_task = IsExecutorTask();
  vsim::NoPreempt np;
  int t = vsim::CurrentThread();
  int want = g_w->current[t] - 1;
  int got = -1;
  if (cur.ok()) {
    got = -2;
    for (size_t i = 0; i < g_w->ex.size(); ++i) if (g_w->ex[i].raw == cur->get()) got = i;
  }
  if (got != want) Violation("wrong-executor", "%s: the current executor is %s instead of %s", where, Name(got).c_str(), Name(want).c_str());
  if (CurrentExecutorScopeGuard::current_executor() != (want < 0 ? nullptr : g_w->ex[want].raw)) {
    Violation("wrong-executor", "%s: CurrentExecutorScopeGuard::current_executor() disagrees", where);
  }
  if (is_task != (g_w->depth[t] > 0)) Violation("wrong-executor", "%s: IsExecutorTask() is %d", where, is_task);
}

void Schedule(const ExecutorPtr& ptr, int exi, ExecutorPtr carried);
int Current(int t) {
  vsim::NoPreempt np;
  return g_w->current[t];
}
void SetCurrent(int t, int v) {
  vsim::NoPreempt np;
  g_w->current[t] = v;
}
bool NoneLeft() {
  vsim::NoPreempt np;
  return g_w->left <= 0;
}

int IndexOf(const ExecutorPtr& p) {
  vsim::NoPreempt np;
  for (size_t i = 0; i < g_w->ex.size(); ++i) if (g_w->ex[i].raw == p.get()) return i;
  return -1;
}

// Any executor that is still there.
ExecutorPtr AnyExecutor() {
  size_t n = g_w->ex.size();
  size_t k = Pick(n);
  for (size_t i = 0; i < n; ++i) {
    ExecutorPtr p = g_w->ex[(k + i) % n].weak.lock();
    if (p) return p;
  }
  return nullptr;
}

void Act(int depth) {
  int n = Pick(4);
  for (int i = 0; i < n; ++i) {
    switch (Pick(6)) {
      case 0: Pause(); break;
      case 1: case 2: {
        if (NoneLeft()) break;
        auto p = AnyExecutor();
        if (!p) break;
        int e = IndexOf(p);
        ExecutorPtr carried;
        if (Chance(1, 3)) carried = AnyExecutor();
        Schedule(p, e, std::move(carried));
        CheckHere("after Schedule()");
        break;
      }
      case 3: {
        if (depth > 2) break;
        ExecutorPtr p = Chance(1, 4) ? nullptr : AnyExecutor();
        int e = p ? IndexOf(p) : -1;
        int t = vsim::CurrentThread();
        int before = Current(t);
        {
          CurrentExecutorScopeGuard guard(std::move(p));
          SetCurrent(t, e + 1);
          CheckHere("in a scope");
          Act(depth + 1);
          CheckHere("at the end of a scope");
        }
        SetCurrent(t, before);
        CheckHere("after a scope");
        break;
      }
      case 4: {
        if (depth > 2) break;
        int t = vsim::CurrentThread();
        int before = Current(t);
        {
          ProvideDefaultCurrentExecutorScopeGuard guard;
          if (before == 0) {
            const ExecutorPtr& d = GetDefaultExecutor();
            SetCurrent(t, IndexOf(d) + 1);
            if (Current(t) == 0) Violation("wrong-executor", "there are two default executors");
          }
          CheckHere("in a default scope");
          Act(depth + 1);
          CheckHere("at the end of a default scope");
        }
        SetCurrent(t, before);
        CheckHere("after a default scope");
        break;
      }
      default: {  // drop a reference
        ExecutorPtr p;
        {
          vsim::NoPreempt np;
          if (g_w->own.empty()) break;
          int k = Pick(g_w->own.size());
          p = std::move(g_w->own[k]);
          g_w->own.erase(g_w->own.begin() + k);
          vsim::Count("executor-dropped");
        }
        p.reset();
        CheckHere("after dropping an executor");
        break;
      }
    }
  }
}

void RunTask(int id, int exi, std::vector<int> outer, const std::shared_ptr<Task>& st, int64_t payload, ExecutorPtr& carried) {
  int t = vsim::CurrentThread();
  int before;
  {
    vsim::NoPreempt np;
    if (++st->runs > 1) Violation("ran-twice", "task %d on executor %d ran twice", id, exi);
    vsim::Log("task %d begins on %s", id, Name(exi).c_str());
    before = g_w->current[t];
    g_w->current[t] = exi + 1;
    ++g_w->depth[t];
    std::vector<int> want = std::move(outer);
    for (int c : g_w->ex[exi].chain) want.push_back(c);
    auto& got = g_w->open[t];
    if (got != want) Violation("wrong-context", "task %d on executor %d runs in %d contexts instead of %d", id, exi, (int)got.size(), (int)want.size());
    Ex& root = g_w->ex[g_w->ex[exi].root];
    if (++root.running > root.limit && root.limit) Violation("over-limit", "%d tasks run on an executor with %d threads", root.running, root.limit);
  }
  if (st->payload != payload) Violation("stale", "task %d does not see what was written before Schedule()", id);
  CheckHere("in a task");
  Act(0);
  if (carried) {
    carried.reset();
    CheckHere("after dropping an executor in a task");
  }
  CheckHere("at the end of a task");
  {
    vsim::NoPreempt np;
    --g_w->ex[g_w->ex[exi].root].running;
    --g_w->depth[t];
    g_w->current[t] = before;
    st->done = true;
    vsim::Log("task %d ends", id);
  }
}

void Schedule(const ExecutorPtr& ptr, int exi, ExecutorPtr carried) {
  if (exi < 0) Violation("wrong-executor", "an unknown executor");
  auto st = std::make_shared<Task>();
  st->ex = exi;
  int id;
  int t = vsim::CurrentThread();
  std::vector<int> outer;
  bool inl;
  {
    vsim::NoPreempt np;
    id = g_w->tasks.size();
    g_w->tasks.push_back(st);
    --g_w->left;
    inl = g_w->ex[exi].inline_tasks;
    if (inl) outer = g_w->open[t];
    vsim::Log("task %d scheduled on %s", id, Name(exi).c_str());
  }
  st->payload = id * 7 + 1;
  std::vector<int> saved = outer;
  ptr->Schedule([id, exi, outer = std::move(outer), st, carried = std::move(carried), p = Probe()]() mutable {
    RunTask(id, exi, std::move(outer), st, id * 7 + 1, carried);
  });
  vsim::NoPreempt np;
  if (inl) {
    if (!st->done) Violation("not-inline", "an eager task %d was not run by Schedule()", id);
    if (g_w->open[t] != saved) Violation("wrong-context", "contexts of an eager task are left open");
  }
}

void P08() {
  auto world = std::make_unique<World>();
  World& w = *world;
  g_w = &w;
  w.left = 3 + Pick(12);
  w.ex.reserve(8);
  auto add = [&](ExecutorPtr p, Ex e) {
    e.raw = p.get();
    e.weak = p;
    w.ex.push_back(std::move(e));
    if (!w.ex.back().shared) w.own.push_back(std::move(p));
  };
  {
    Ex e;
    e.shared = true;
    e.root = 0;
    e.inline_tasks = true;
    add(GetEagerExecutor(), e);
    e.root = 1;
    e.inline_tasks = false;
    add(GetDefaultExecutor(), e);
  }
  int n = 1 + Pick(3);
  for (int i = 0; i < n; ++i) {
    Ex e;
    e.root = w.ex.size();
    switch (Pick(4)) {
      case 0: add(std::make_shared<SimPool>(1 + Pick(2), Pick(2) == 0, -1), e); break;
      case 1:
        e.limit = 1 + Pick(3);
        add(Pick(2) ? MakeAsioExecutor(e.limit) : MakeExecutor(e.limit), e);
        break;
      case 2:
        e.discards = true;
        add(std::make_shared<SimPool>(1, Pick(2) == 0, Pick(6)), e);
        break;
      default:
        add(MakeExecutor(0), e);
    }
  }
  int m = Pick(4);
  for (int i = 0; i < m; ++i) {
    int b = Pick(w.ex.size());
    ExecutorPtr base = w.ex[b].weak.lock();
    Ex e = w.ex[b];
    e.shared = false;
    e.base = b;
    int me = w.ex.size();
    int kind = Pick(4);
    if (kind < 2) e.chain.push_back(me);
    Executor::ContextGuardInitializer init;
    if (kind == 0) {
      init = [me, p = Probe()](ContextGuard& g) { g.init<Ctx<4>>(me); };
    } else if (kind == 1) {
      init = [me, p = Probe()](ContextGuard& g) { g.init<Ctx<100>>(me); };
    } else if (kind == 2) {
      init = [p = Probe()](ContextGuard&) {};
    }
    add(std::make_shared<DerivedExecutor>(std::move(base), std::move(init)), e);
  }
  for (size_t i = 0; i < w.ex.size(); ++i) {
    if (w.ex[i].raw->Repr().empty()) Violation("wrong-executor", "an empty representation");
    for (size_t j = 0; j < i; ++j) {
      if (w.ex[i].raw->uuid() == w.ex[j].raw->uuid()) Violation("wrong-executor", "two executors have one uuid");
    }
  }
  CheckHere("at the beginning");
  int nthreads = 1 + Pick(3);
  for (int i = 0; i < nthreads; ++i) {
    vsim::Spawn([] {
      CheckHere("in a new thread");
      if (GetDefaultExecutor().get() != g_w->ex[1].raw || GetEagerExecutor().get() != g_w->ex[0].raw) Violation("wrong-executor", "a shared executor changed");
      Act(0);
      Act(0);
      CheckHere("at the end of a thread");
    }, ThreadName("user", i));
  }
  Act(0);
  {
    std::vector<ExecutorPtr> mine;
    {
      vsim::NoPreempt np;
      if (Pick(2)) mine.swap(w.own);
    }
    while (!mine.empty()) {
      mine.pop_back();
      CheckHere("after dropping an executor");
    }
  }
  vsim::Quiesce();
  while (!w.own.empty()) w.own.pop_back();
  vsim::Quiesce();
  CheckHere("at the end");
  for (size_t i = 0; i < w.ex.size(); ++i) {
    if (!w.ex[i].shared && !w.ex[i].weak.expired()) Violation("leak", "executor %d is still alive", (int)i);
  }
  for (size_t i = 0; i < w.tasks.size(); ++i) {
    auto& t = *w.tasks[i];
    if (t.runs > 0 && !t.done) Violation("stuck", "task %d never ended", (int)i);
    if (t.runs == 0 && !w.ex[t.ex].discards) Violation("not-run", "task %d on executor %d was never run", (int)i, t.ex);
  }
  if (vsim::Counter(kLiveCtx, 0)) Violation("leak", "%ld contexts are still alive", (long)vsim::Counter(kLiveCtx, 0));
  if (vsim::Counter(kLivePools, 0) > 1) Violation("leak", "%ld thread pools are still alive", (long)vsim::Counter(kLivePools, 0));
  CheckNoLeaks();
  g_w = nullptr;
}
vsim::Scenario s("executors", P08);

}  // namespace
}  // namespace sim
