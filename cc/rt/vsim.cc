// See vsim.h. This file is compiled WITHOUT -fsanitize=thread.
#include "vsim.h"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <exception>
#include <new>
#include <string>
#include <vector>

namespace vsim {
namespace {

constexpr int kMaxThreads = 24;
constexpr size_t kArenaSize = size_t{48} << 20;
constexpr size_t kMaxTrace = 1 << 17;
constexpr size_t kLogSize = 1 << 18;
constexpr uint64_t kStepLimit = 600000;

// ---- memory shared between the driver and a run --------------------------
struct Shared {
  int state;  // 0 running, 1 ok, 2 violation, 3 limit
  char kind[64];
  char message[2048];
  uint32_t w[kMaxTrace];
  uint32_t s[kMaxTrace];
  uint32_t nw, ns;
  uint64_t steps, switches, hash;
  uint32_t threads;
  struct { char name[28]; uint32_t n; } faults[64];
  char log[kLogSize];
  uint32_t nlog;
};
Shared* g_sh;

struct Rng {
  uint64_t s;
  uint64_t Next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint32_t Below(uint32_t n) { return n <= 1 ? 0 : Next() % n; }
};

struct Trace {
  bool replay = false;
  std::vector<uint32_t> w, s;
};
Trace g_trace;
Rng g_wrng, g_srng;
bool g_verbose = false;

using VC = uint32_t[kMaxThreads];

struct Thread {
  int id;
  const char* name;
  enum { kRunnable, kBlocked, kQuiesce, kDone } state;
  const void* waiting;
  const char* why;
  std::atomic<uint32_t> baton;
  std::function<void()> fn;
  pthread_t handle;
  uint32_t prio;
  VC vc, rel, pend;
  bool has_rel;
  int np;  // g_nopreempt while the thread is switched out
  int64_t deadline;  // of a timed wait; kNoDeadline otherwise
  bool timed_out;
};

Thread g_threads[kMaxThreads];
int64_t g_now = 0;  // the simulated clock, in nanoseconds
int g_ntimed = 0;   // threads in a timed wait
int g_nthreads = 0;
int g_cur = 0;
int g_nopreempt = 0;
bool g_active = false;
uint64_t g_steps = 0;
int64_t g_gap = -1;  // steps until the next preemption; negative = never
uint32_t g_mean_gap = 50;
int g_strategy = 0;
bool g_races = true;
// A run that takes very long goes on under a fair round-robin schedule; one
// that does not end then either makes no progress.
bool g_fair = false;
constexpr int kFairGap = 100;

uint32_t NextW(uint32_t n, uint32_t generated) {
  uint32_t v;
  if (g_trace.replay) {
    v = g_sh->nw < g_trace.w.size() ? g_trace.w[g_sh->nw] : 0;
    if (n) v %= n;
  } else {
    v = generated;
  }
  if (g_sh->nw >= kMaxTrace) {
    g_fair = true;
    return 0;
  }
  g_sh->w[g_sh->nw++] = v;
  return v;
}
uint32_t NextS(uint32_t n, uint32_t generated) {
  uint32_t v;
  if (g_trace.replay) {
    v = g_sh->ns < g_trace.s.size() ? g_trace.s[g_sh->ns] : 0;
    if (n) v %= n;
  } else {
    v = generated;
  }
  if (g_sh->ns >= kMaxTrace) {
    g_fair = true;
    return 0;
  }
  g_sh->s[g_sh->ns++] = v;
  return v;
}

void Mix(uint64_t x) {
  g_sh->hash = (g_sh->hash ^ x) * 0x100000001b3ull;
  g_sh->hash ^= g_sh->hash >> 29;
}

void NewGap() {
  if (g_fair) {
    g_gap = kFairGap;
    return;
  }
  // Geometric-like gap; 0 in the trace means "no further preemption".
  uint32_t gen = 0;
  if (!g_trace.replay) {
    uint64_t r = g_srng.Next();
    double u = ((r >> 11) + 1) * (1.0 / 9007199254740993.0);
    double x = -__builtin_log(u) * g_mean_gap;
    gen = x > 1e6 ? 1000000u : 1u + (uint32_t)x;
  }
  uint32_t v = NextS(0, gen);
  g_gap = v == 0 ? -1 : (int64_t)v;
}

long Futex(std::atomic<uint32_t>* a, int op, uint32_t v) {
  return syscall(SYS_futex, (uint32_t*)a, op | FUTEX_PRIVATE_FLAG, v, nullptr,
                 nullptr, 0);
}
void WaitBaton(Thread& t) {
  while (t.baton.load(std::memory_order_acquire) == 0) {
    Futex(&t.baton, FUTEX_WAIT, 0);
  }
  t.baton.store(0, std::memory_order_relaxed);
}
void GiveBaton(Thread& t) {
  t.baton.store(1, std::memory_order_release);
  Futex(&t.baton, FUTEX_WAKE, 1);
}

void SwitchTo(int to, uintptr_t pc) {
  int from = g_cur;
  if (to == from) return;
  ++g_sh->switches;
  Mix((uint64_t(from) << 8 | to) ^ (uint64_t(pc) << 16));
  if (g_verbose) {
    Log("  -- switch %s -> %s", g_threads[from].name, g_threads[to].name);
  }
  g_threads[from].np = g_nopreempt;
  g_nopreempt = g_threads[to].np;
  g_cur = to;
  bool done = g_threads[from].state == Thread::kDone;
  GiveBaton(g_threads[to]);
  if (!done) WaitBaton(g_threads[from]);
}

void EndTimedWait(Thread& t) {
  if (t.deadline != kNoDeadline) {
    t.deadline = kNoDeadline;
    --g_ntimed;
  }
  t.state = Thread::kRunnable;
}

// Moves the clock to the earliest deadline and wakes who waits for it.
bool AdvanceClock() {
  int64_t first = kNoDeadline;
  for (int i = 0; i < g_nthreads; ++i) {
    if (g_threads[i].state == Thread::kBlocked) {
      first = std::min(first, g_threads[i].deadline);
    }
  }
  if (first == kNoDeadline) return false;
  g_now = std::max(g_now, first);
  for (int i = 0; i < g_nthreads; ++i) {
    Thread& t = g_threads[i];
    if (t.state == Thread::kBlocked && t.deadline <= g_now) {
      EndTimedWait(t);
      t.timed_out = true;
    }
  }
  return true;
}

// Picks the next thread among the runnable ones, excluding `except`. With
// timed waits, time may pass instead while others could run.
int PickNext(int except) {
  if (g_ntimed > 0 && g_active) {
    int runnable = 0;
    for (int i = 0; i < g_nthreads; ++i) {
      runnable += i != except && g_threads[i].state == Thread::kRunnable;
    }
    if (runnable == 0) {
      AdvanceClock();
    } else if (!g_fair && NextS(2, !g_trace.replay && g_srng.Below(12) == 0)) {
      AdvanceClock();
    }
  }
  int cand[kMaxThreads];
  int n = 0;
  for (int i = 0; i < g_nthreads; ++i) {
    if (i != except && g_threads[i].state == Thread::kRunnable) cand[n++] = i;
  }
  if (n == 0) {
    for (int i = 0; i < g_nthreads; ++i) {
      if (i != except && g_threads[i].state == Thread::kQuiesce) {
        g_threads[i].state = Thread::kRunnable;
        return i;
      }
    }
    return -1;
  }
  if (g_fair) {
    for (int i = 0; i < n; ++i) {
      if (cand[i] > g_cur) return cand[i];
    }
    return cand[0];
  }
  uint32_t gen = 0;
  if (!g_trace.replay) {
    if (g_strategy == 1) {  // priorities
      int best = 0;
      for (int i = 1; i < n; ++i) {
        if (g_threads[cand[i]].prio > g_threads[cand[best]].prio) best = i;
      }
      gen = best;
    } else {
      gen = g_srng.Below(n);
    }
  }
  return n == 1 ? cand[0] : cand[NextS(n, gen)];
}

void Preempt(uintptr_t pc) {
  NewGap();
  if (!g_trace.replay && g_strategy == 1) {
    g_threads[g_cur].prio = g_srng.Next() >> 33;
  }
  int others = 0;
  for (int i = 0; i < g_nthreads; ++i) {
    others += i != g_cur && g_threads[i].state == Thread::kRunnable;
  }
  if (others == 0) return;
  SwitchTo(PickNext(g_cur), pc);
}

inline void PointPc(uintptr_t pc) {
  if (!g_active || g_nopreempt) return;
  if (++g_steps > kStepLimit) {
    if (!g_fair) {
      g_fair = true;
      g_gap = 1;
    }
    if (g_steps > 2 * kStepLimit) {
      Fail("no-progress", "the run does not end, even under a fair schedule");
    }
  }
  if (g_gap > 0 && --g_gap == 0) Preempt(pc);
}

void Deadlock(const char* what) {
  std::string m = what;
  for (int i = 0; i < g_nthreads; ++i) {
    if (g_threads[i].state == Thread::kBlocked) {
      m += std::string("; ") + g_threads[i].name + " waits for " +
           g_threads[i].why;
    }
  }
  Fail("deadlock", m);
}

void Yield() {  // the current thread cannot continue
  int to = PickNext(-1);  // maybe itself, when its wait times out
  if (to < 0) Deadlock("no thread can make progress");
  SwitchTo(to, 1);
}

// ---- arena ----------------------------------------------------------------
char* g_arena;
char* g_arena_end;
char* g_bump;
uint8_t* g_live;  // per 8-byte granule: 0 never, 1 live, 2 freed

struct Header {
  uint64_t size;
  uint64_t magic;
};
constexpr uint64_t kMagic = 0x7673696d68656164ull;

// ---- race detector ----------------------------------------------------------
struct Cell {
  uint32_t clock;
  uint8_t tid;
  uint8_t mask;
  uint8_t flags;  // 1 = write, 2 = atomic
  uint8_t used;
};
struct Granule {
  Cell c[4];
};
Granule* g_shadow_arena;
Granule* g_shadow_data;
uint32_t* g_cell_pc_arena;  // 4 per granule
uint32_t* g_cell_pc_data;
char *g_data_lo, *g_data_hi;

extern "C" char __data_start;
extern "C" char _end;

struct SyncTable {
  // open addressing; addresses are never reused within a run.
  static constexpr size_t kCap = 1 << 17;
  struct Ent {
    uintptr_t key;
    VC vc;
  };
  Ent* ents = nullptr;
  size_t n = 0;
  uint32_t* Get(uintptr_t k, bool create) {
    size_t i = (k * 0x9e3779b97f4a7c15ull) >> 47;
    for (;;) {
      Ent& e = ents[i];
      if (e.key == k) return e.vc;
      if (e.key == 0) {
        if (!create) return nullptr;
        if (++n > kCap / 2) Limit("too many sync objects");
        e.key = k;
        return e.vc;
      }
      i = (i + 1) & (kCap - 1);
    }
  }
};
SyncTable g_sync;
VC g_fence_vc;

void Join(VC a, const VC b) {
  for (int i = 0; i < g_nthreads; ++i) {
    if (b[i] > a[i]) a[i] = b[i];
  }
}
void Copy(VC a, const VC b) { memcpy(a, b, sizeof(VC)); }

const char* Sym(uintptr_t pc) {
  static char buf[32];
  snprintf(buf, sizeof buf, "0x%lx", (unsigned long)pc);
  return buf;
}

void Race(const char* addr, size_t size, bool write, uintptr_t pc,
          const Cell& old, uint32_t old_pc) {
  std::string m = "data race: ";
  m += write ? "write" : "read";
  m += " by " + std::string(g_threads[g_cur].name) + " at " + Sym(pc);
  m += std::string(" and ") + (old.flags & 1 ? "write" : "read") + " by " +
       g_threads[old.tid].name + " at " + Sym(old_pc);
  (void)addr;
  m += " of " + std::to_string(size) + " bytes";
  Fail("data-race", m);
}

void RaceAccess(Granule* g, uint32_t* pcs, uint8_t mask, uint8_t flags,
                const char* addr, size_t size, uintptr_t pc) {
  Thread& t = g_threads[g_cur];
  uint32_t clk = t.vc[g_cur];
  int slot = -1;
  for (int i = 0; i < 4; ++i) {
    Cell& c = g->c[i];
    if (!c.used) {
      if (slot < 0) slot = i;
      continue;
    }
    if (!(c.mask & mask)) continue;
    if (c.tid == g_cur) {
      if ((c.mask & ~mask) == 0 && (flags & 1) >= (c.flags & 1)) {
        c.used = 0;  // superseded
        if (slot < 0 || g->c[slot].used) slot = i;
      }
      continue;
    }
    if (t.vc[c.tid] >= c.clock) {
      if ((c.mask & ~mask) == 0 && (flags & 1)) {
        c.used = 0;
        if (slot < 0 || g->c[slot].used) slot = i;
      }
      continue;
    }
    if (!(c.flags & 1) && !(flags & 1)) continue;   // both reads
    if ((c.flags & 2) && (flags & 2)) continue;     // both atomic
    Race(addr, size, flags & 1, pc, c, pcs[i]);
  }
  if (slot < 0) slot = clk & 3;
  g->c[slot] = Cell{clk, (uint8_t)g_cur, mask, flags, 1};
  pcs[slot] = (uint32_t)pc;
}

void CheckAccess(const char* p, size_t size, bool write, bool atomic,
                 uintptr_t pc) {
  Granule* base;
  uint32_t* pcbase;
  const char* lo;
  if (p >= g_arena && p < g_arena_end) {
    size_t off = (p - g_arena) >> 3, last = (p + size - 1 - g_arena) >> 3;
    for (size_t i = off; i <= last; ++i) {
      if (g_live[i] != 1) {
        Fail(g_live[i] == 2 ? "use-after-free" : "wild-access",
             std::string(write ? "write" : "read") + " of " +
                 std::to_string(size) + " bytes by " +
                 g_threads[g_cur].name + " at " + Sym(pc));
      }
    }
    base = g_shadow_arena;
    pcbase = g_cell_pc_arena;
    lo = g_arena;
  } else if (p >= g_data_lo && p + size <= g_data_hi) {
    base = g_shadow_data;
    pcbase = g_cell_pc_data;
    lo = g_data_lo;
  } else {
    return;
  }
  if (!g_races || g_nthreads < 2) return;
  uint8_t flags = (write ? 1 : 0) | (atomic ? 2 : 0);
  const char* end = p + size;
  while (p < end) {
    size_t gi = (p - lo) >> 3;
    size_t o = (p - lo) & 7;
    size_t n = 8 - o;
    if (n > size_t(end - p)) n = end - p;
    uint8_t mask = (uint8_t)(((1u << n) - 1) << o);
    RaceAccess(base + gi, pcbase + gi * 4, mask, flags, p, n, pc);
    p += n;
  }
}

[[noreturn]] void Finish(int state) {
  g_sh->steps = g_steps;
  g_sh->threads = g_nthreads;
  g_sh->state = state;
  _exit(0);
}

void OnSignal(int sig, siginfo_t* si, void*) {
  char buf[128];
  snprintf(buf, sizeof buf, "signal %d at address %p in thread %s", sig,
           si->si_addr, g_threads[g_cur].name);
  if (sig == SIGALRM) Limit("real-time limit (a thread blocked outside the simulator?)");
  Fail("crash", buf);
}

void OnTerminate() {
  std::string m = "std::terminate";
  if (std::current_exception()) {
    try {
      std::rethrow_exception(std::current_exception());
    } catch (const std::exception& e) {
      m += std::string(": ") + e.what();
    } catch (...) {
    }
  }
  Fail("terminate", m);
}

void* ThreadMain(void* arg) {
  Thread& t = *(Thread*)arg;
  stack_t ss = {};
  ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
  WaitBaton(t);
  t.fn();
  t.fn = nullptr;
  Release(&t);
  t.state = Thread::kDone;
  int to = PickNext(t.id);
  if (to < 0) Deadlock("thread ended and nothing can run");
  SwitchTo(to, 2);
  for (;;) pause();
  return nullptr;
}

Scenario* g_scenarios;

}  // namespace

Scenario::Scenario(const char* n, void (*r)()) : name(n), run(r) {
  next = g_scenarios;
  g_scenarios = this;
}

void Fail(const char* kind, const std::string& message) {
  g_active = false;
  snprintf(g_sh->kind, sizeof g_sh->kind, "%s", kind);
  snprintf(g_sh->message, sizeof g_sh->message, "%s", message.c_str());
  Finish(2);
}
void Limit(const std::string& message) {
  g_active = false;
  snprintf(g_sh->message, sizeof g_sh->message, "%s", message.c_str());
  Finish(3);
}

int Pick(int n) { return n <= 1 ? 0 : NextW(n, g_wrng.Below(n)); }
bool Chance(int num, int den) {
  return NextW(2, (int)g_wrng.Below(den) < num ? 1 : 0) != 0;
}

int PickS(int n) { return n <= 1 ? 0 : NextS(n, g_srng.Below(n)); }
void Point() { PointPc((uintptr_t)__builtin_return_address(0)); }
int CurrentThread() { return g_cur; }
uint64_t Steps() { return g_steps; }
bool Verbose() { return g_verbose; }

int Spawn(std::function<void()> fn, const char* name) {
  if (g_nthreads >= kMaxThreads) Limit("too many threads");
  int id = g_nthreads;
  Thread& t = g_threads[id];
  t.id = id;
  t.name = name;
  t.state = Thread::kRunnable;
  t.deadline = kNoDeadline;
  t.fn = std::move(fn);
  t.baton.store(0);
  t.prio = g_trace.replay ? 0 : g_srng.Next() >> 33;
  ++g_nthreads;
  t.vc[id] = 1;
  Join(t.vc, g_threads[g_cur].vc);
  ++g_threads[g_cur].vc[g_cur];
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstacksize(&attr, 512 << 10);
  if (pthread_create(&t.handle, &attr, ThreadMain, &t) != 0) {
    Limit("pthread_create failed");
  }
  Point();
  return id;
}

void Block(const void* what, const char* why) {
  Thread& t = g_threads[g_cur];
  t.state = Thread::kBlocked;
  t.waiting = what;
  t.why = why;
  Yield();
}
int64_t Now() { return g_now; }
bool BlockUntil(const void* what, const char* why, int64_t deadline) {
  Thread& t = g_threads[g_cur];
  if (deadline <= g_now) return false;
  t.timed_out = false;
  t.deadline = deadline;
  if (deadline != kNoDeadline) ++g_ntimed;
  Block(what, why);
  return !t.timed_out;
}
void Wake(const void* what) {
  for (int i = 0; i < g_nthreads; ++i) {
    Thread& t = g_threads[i];
    if (t.state == Thread::kBlocked && t.waiting == what) {
      EndTimedWait(t);
    }
  }
}
bool WakeOne(const void* what) {
  int cand[kMaxThreads];
  int n = 0;
  for (int i = 0; i < g_nthreads; ++i) {
    if (g_threads[i].state == Thread::kBlocked && g_threads[i].waiting == what) {
      cand[n++] = i;
    }
  }
  if (n == 0) return false;
  int i = n == 1 ? 0 : NextS(n, g_srng.Below(n));
  EndTimedWait(g_threads[cand[i]]);
  return true;
}

void Settle() {
  Thread& t = g_threads[g_cur];
  int to = -1;
  t.state = Thread::kQuiesce;
  to = PickNext(g_cur);
  if (to < 0) {
    t.state = Thread::kRunnable;
  } else {
    SwitchTo(to, 3);
  }
}
void Quiesce(bool readers_may_wait) {
  Settle();
  Thread& t = g_threads[g_cur];
  for (int i = 0; i < g_nthreads; ++i) {
    if (g_threads[i].state == Thread::kBlocked &&
        strncmp(g_threads[i].why, "idle", 4) != 0 &&
        !(readers_may_wait &&
          strcmp(g_threads[i].why, "a stream notification") == 0)) {
      Deadlock("quiescent with blocked threads");
    }
  }
  // Everything that other threads did happened before.
  for (int i = 0; i < g_nthreads; ++i) Join(t.vc, g_threads[i].vc);
}

void Pause() {
  int n = Pick(6);
  for (int i = 0; i < n; ++i) {
    int others = 0;
    for (int j = 0; j < g_nthreads; ++j) {
      others += j != g_cur && g_threads[j].state == Thread::kRunnable;
    }
    if (others == 0) return;
    SwitchTo(PickNext(g_cur), 4);
  }
}

void Acquire(const void* s) {
  if (uint32_t* vc = g_sync.Get((uintptr_t)s, false)) {
    Join(g_threads[g_cur].vc, vc);
  }
}
void Release(const void* s) {
  Join(g_sync.Get((uintptr_t)s, true), g_threads[g_cur].vc);
  ++g_threads[g_cur].vc[g_cur];
}

void Count(const char* fault) {
  for (auto& f : g_sh->faults) {
    if (f.name[0] == 0) snprintf(f.name, sizeof f.name, "%s", fault);
    if (strncmp(f.name, fault, sizeof f.name - 1) == 0) {
      ++f.n;
      return;
    }
  }
}
void Log(const char* fmt, ...) {
  if (!g_verbose) return;
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  char line[640];
  int m = snprintf(line, sizeof line, "%7lu %-8s %.*s\n", (unsigned long)g_steps,
                   g_threads[g_cur].name, n, buf);
  if (g_sh->nlog + m < kLogSize) {
    memcpy(g_sh->log + g_sh->nlog, line, m);
    g_sh->nlog += m;
  }
}

static int64_t g_counters[16];
int64_t Counter(int i, int64_t add) { return g_counters[i] += add; }

bool IsLive(const void* p) {
  const char* c = (const char*)p;
  return c >= g_arena && c < g_arena_end && g_live[(c - g_arena) >> 3] == 1;
}

NoPreempt::NoPreempt() { ++g_nopreempt; }
NoPreempt::~NoPreempt() { --g_nopreempt; }

static void CheckMutex(MutexImpl* m, const void* id) {
  const char* c = (const char*)id;
  if (c >= g_arena && c < g_arena_end && g_live[(c - g_arena) >> 3] != 1) {
    Fail("use-after-free", "operation on a destroyed mutex");
  }
  if (m->magic != 0x6d757478) Fail("use-after-free", "operation on a destroyed mutex");
}
void MutexLock(MutexImpl* m, const void* id) {
  PointPc((uintptr_t)__builtin_return_address(0));
  CheckMutex(m, id);
  while (m->owner != -1 || m->readers != 0) {
    if (m->owner == g_cur) Fail("deadlock", "a thread locks a mutex it already holds");
    Block(id, "a mutex");
    CheckMutex(m, id);
  }
  m->owner = g_cur;
  Acquire(id);
}
bool MutexTryLock(MutexImpl* m, const void* id) {
  PointPc((uintptr_t)__builtin_return_address(0));
  CheckMutex(m, id);
  if (m->owner != -1 || m->readers != 0) return false;
  m->owner = g_cur;
  Acquire(id);
  return true;
}
void MutexUnlock(MutexImpl* m, const void* id) {
  CheckMutex(m, id);
  if (m->owner != g_cur) Fail("mutex-misuse", "unlock of a mutex not held by the thread");
  Release(id);
  m->owner = -1;
  Wake(id);
  PointPc((uintptr_t)__builtin_return_address(0));
}
void MutexUnlockAndBlock(MutexImpl* m, const void* id, const void* what,
                         const char* why) {
  CheckMutex(m, id);
  if (m->owner != g_cur) Fail("mutex-misuse", "wait with a mutex not held by the thread");
  Release(id);
  m->owner = -1;
  Wake(id);
  Block(what, why);
}
void MutexReaderLock(MutexImpl* m, const void* id) {
  PointPc((uintptr_t)__builtin_return_address(0));
  CheckMutex(m, id);
  while (m->owner != -1) {
    if (m->owner == g_cur) Fail("deadlock", "a thread locks a mutex it already holds");
    Block(id, "a mutex");
    CheckMutex(m, id);
  }
  ++m->readers;
  Acquire(id);
}
void MutexReaderUnlock(MutexImpl* m, const void* id) {
  CheckMutex(m, id);
  if (m->readers <= 0) Fail("mutex-misuse", "reader unlock of a mutex not held");
  Release(id);
  if (--m->readers == 0) Wake(id);
  PointPc((uintptr_t)__builtin_return_address(0));
}
void MutexDestroy(MutexImpl* m, const void* id) {
  if (m->owner != -1 || m->readers != 0) {
    Fail("mutex-misuse", "a mutex is destroyed while it is locked");
  }
  m->magic = 0xdead;
  (void)id;
}
bool MutexHeld(const MutexImpl* m) { return m->owner == g_cur; }

// ---- driver ----------------------------------------------------------------
namespace {

struct Options {
  const char* scenario = nullptr;
  uint64_t seed = 1;
  uint64_t first = 0, stride = 1, runs = 0;
  double wall = 0;
  const char* out = nullptr;
  const char* replay = nullptr;
  const char* known = "";
  bool verbose = false;
  uint64_t minimise = 0;
};

double WallNow() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void Child(void (*run)(), uint64_t seed) {
  struct sigaction sa = {};
  sa.sa_sigaction = OnSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) {
    sigaction(s, &sa, nullptr);
  }
  std::set_terminate(OnTerminate);
  // Keep to the kernel's global futex table: since Linux 6.16 a process with
  // threads gets its own, whose release pins the dead process's memory for long.
  prctl(78 /* PR_FUTEX_HASH */, 1 /* SET_SLOTS */, 0, 0, 0);
  alarm(20);
  g_wrng.s = seed;
  g_srng.s = seed ^ 0x5bd1e995u;
  g_srng.Next();
  if (!g_trace.replay) {
    static const uint32_t gaps[] = {4, 12, 40, 120, 400, 1500};
    g_mean_gap = gaps[g_srng.Below(6)];
    g_strategy = g_srng.Below(3) == 0 ? 1 : 0;
  }
  Thread& t = g_threads[0];
  t.deadline = kNoDeadline;
  t.id = 0;
  t.name = "main";
  t.state = Thread::kRunnable;
  t.vc[0] = 1;
  t.prio = g_trace.replay ? 0 : g_srng.Next() >> 33;
  g_nthreads = 1;
  g_cur = 0;
  NewGap();
  g_active = true;
  run();
  g_active = false;
  Finish(1);
}

int RunOnce(void (*run)(), uint64_t seed) {
  memset(g_sh, 0, offsetof(Shared, w));
  g_sh->nw = g_sh->ns = 0;
  g_sh->steps = g_sh->switches = g_sh->threads = 0;
  g_sh->hash = 0xcbf29ce484222325ull;
  memset(g_sh->faults, 0, sizeof g_sh->faults);
  g_sh->nlog = 0;
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(2);
  }
  if (pid == 0) {
    Child(run, seed);
    _exit(0);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (g_sh->state == 0) {
    g_sh->state = 2;
    snprintf(g_sh->kind, sizeof g_sh->kind, "crash");
    snprintf(g_sh->message, sizeof g_sh->message, "process ended with status 0x%x", st);
  }
  return g_sh->state;
}

void JsonStr(FILE* f, const char* s, size_t n) {
  fputc('"', f);
  for (size_t i = 0; i < n && s[i]; ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
void JsonArr(FILE* f, const std::vector<uint32_t>& v) {
  fputc('[', f);
  for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s%u", i ? "," : "", v[i]);
  fputc(']', f);
}
std::vector<uint32_t> Trim(const uint32_t* p, uint32_t n) {
  std::vector<uint32_t> v(p, p + n);
  while (!v.empty() && v.back() == 0) v.pop_back();
  return v;
}

// Minimises g_trace for a violation of the given kind.
void Minimise(void (*run)(), const std::string& kind, const std::string& prefix,
              uint64_t budget, double deadline) {
  uint64_t used = 0;
  auto fails = [&](const Trace& t) {
    if (used >= budget || WallNow() > deadline) return false;
    ++used;
    g_trace = t;
    g_trace.replay = true;
    return RunOnce(run, 0) == 2 && kind == g_sh->kind &&
           std::string(g_sh->message).substr(0, prefix.size()) == prefix;
  };
  Trace best = g_trace;
  best.replay = true;
  if (!fails(best)) {
    g_trace = best;
    return;
  }
  bool progress = true;
  while (progress && used < budget && WallNow() < deadline) {
    progress = false;
    for (int which = 0; which < 2; ++which) {
      auto field = [&](Trace& t) -> std::vector<uint32_t>& {
        return which ? t.s : t.w;
      };
      // cut the tail
      for (size_t len = field(best).size() / 2; len >= 1; len /= 2) {
        while (field(best).size() >= len) {
          Trace t = best;
          field(t).resize(field(t).size() - len);
          if (!fails(t)) break;
          best = t;
          progress = true;
        }
      }
      // remove, then zero, chunks
      for (size_t len = std::max<size_t>(1, field(best).size() / 4);; len /= 2) {
        for (size_t i = 0; i + len <= field(best).size();) {
          Trace t = best;
          auto& v = field(t);
          v.erase(v.begin() + i, v.begin() + i + len);
          if (fails(t)) {
            best = t;
            progress = true;
            continue;
          }
          bool nz = false;
          t = best;
          for (size_t j = i; j < i + len; ++j) {
            nz |= field(t)[j] != 0;
            field(t)[j] = 0;
          }
          if (nz && fails(t)) {
            best = t;
            progress = true;
          }
          i += len;
        }
        if (len <= 1) break;
      }
    }
  }
  g_trace = best;
}

std::vector<uint32_t> ReadInts(const char*& p) {
  std::vector<uint32_t> v;
  while (*p && *p != '[') ++p;
  if (*p) ++p;
  while (*p && *p != ']') {
    if (*p >= '0' && *p <= '9') {
      v.push_back(strtoul(p, (char**)&p, 10));
    } else {
      ++p;
    }
  }
  return v;
}

int Main(int argc, char** argv) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
    if (a == "--scenario") o.scenario = val();
    else if (a == "--seed") o.seed = strtoull(val(), nullptr, 10);
    else if (a == "--first") o.first = strtoull(val(), nullptr, 10);
    else if (a == "--stride") o.stride = strtoull(val(), nullptr, 10);
    else if (a == "--runs") o.runs = strtoull(val(), nullptr, 10);
    else if (a == "--wall") o.wall = atof(val());
    else if (a == "--replay") o.replay = val();
    else if (a == "--known") o.known = val();
    else if (a == "--verbose") o.verbose = true;
    else if (a == "--no-races") g_races = false;
    else if (a == "--minimise") o.minimise = strtoull(val(), nullptr, 10);
    else if (a == "--list") {
      for (Scenario* s = g_scenarios; s; s = s->next) puts(s->name);
      return 0;
    }
  }
  void (*run)() = nullptr;
  for (Scenario* s = g_scenarios; s; s = s->next) {
    if (o.scenario && strcmp(s->name, o.scenario) == 0) run = s->run;
  }
  if (!run) {
    fprintf(stderr, "unknown scenario\n");
    return 2;
  }
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_verbose = o.verbose;
  {  // One baton: all threads of a run share one core.
    cpu_set_t set;
    if (sched_getaffinity(0, sizeof set, &set) == 0 && CPU_COUNT(&set) > 1) {
      int want = o.first % CPU_COUNT(&set);
      for (int c = 0; c < CPU_SETSIZE; ++c) {
        if (CPU_ISSET(c, &set) && want-- == 0) {
          CPU_ZERO(&set);
          CPU_SET(c, &set);
          sched_setaffinity(0, sizeof set, &set);
          break;
        }
      }
    }
  }
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  auto report = [&](uint64_t idx, bool log) {
    auto w = Trim(g_sh->w, g_sh->nw), s = Trim(g_sh->s, g_sh->ns);
    printf("{\"t\":\"run\",\"idx\":%lu,\"state\":%d,\"kind\":", (unsigned long)idx, g_sh->state);
    JsonStr(stdout, g_sh->kind, sizeof g_sh->kind);
    printf(",\"message\":");
    JsonStr(stdout, g_sh->message, sizeof g_sh->message);
    printf(",\"steps\":%lu,\"switches\":%lu,\"threads\":%u,\"hash\":\"%016lx\"", (unsigned long)g_sh->steps,
           (unsigned long)g_sh->switches, g_sh->threads, (unsigned long)g_sh->hash);
    printf(",\"faults\":{");
    bool firstf = true;
    for (auto& f : g_sh->faults) {
      if (!f.name[0]) break;
      printf("%s", firstf ? "" : ",");
      JsonStr(stdout, f.name, sizeof f.name);
      printf(":%u", f.n);
      firstf = false;
    }
    printf("}");
    if (g_sh->state != 1 || log) {
      printf(",\"w\":");
      JsonArr(stdout, w);
      printf(",\"s\":");
      JsonArr(stdout, s);
    }
    if (log) {
      printf(",\"log\":");
      JsonStr(stdout, g_sh->log, g_sh->nlog);
    }
    printf("}\n");
    fflush(stdout);
  };
  if (o.replay) {
    FILE* f = fopen(o.replay, "r");
    if (!f) return 2;
    std::string text;
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) text.append(buf, n);
    fclose(f);
    const char* p = text.c_str();
    g_trace.w = ReadInts(p);
    while (*p && *p != '[') ++p;
    g_trace.s = ReadInts(p);
    g_trace.replay = true;
    if (o.minimise) {
      RunOnce(run, 0);
      std::string kind = g_sh->kind, msg = g_sh->message;
      size_t cut = msg.find(':');
      std::string prefix = cut == std::string::npos ? "" : msg.substr(0, cut);
      if (g_sh->state == 2) {
        g_verbose = false;
        Minimise(run, kind, prefix, o.minimise, WallNow() + (o.wall > 0 ? o.wall : 30));
        g_verbose = o.verbose;
      }
    }
    RunOnce(run, 0);
    report(0, true);
    return g_sh->state == 2 ? 1 : 0;
  }
  double t0 = WallNow();
  uint64_t total = 0, steps = 0, switches = 0, limits = 0, maxthreads = 0;
  struct { char name[28]; uint64_t n; uint64_t runs; } faults[64] = {};
  std::vector<uint64_t> hashes;
  int rc = 0;
  for (uint64_t i = o.first;; i += o.stride) {
    if (o.runs && total >= o.runs) break;
    if (o.wall > 0 && WallNow() - t0 > o.wall) break;
    int st = RunOnce(run, o.seed * 0x9e3779b97f4a7c15ull + i * 0xd1342543de82ef95ull + 77);
    ++total;
    steps += g_sh->steps;
    switches += g_sh->switches;
    if (g_sh->threads > maxthreads) maxthreads = g_sh->threads;
    if (hashes.size() < 200000) hashes.push_back(g_sh->hash);
    for (auto& f : g_sh->faults) {
      if (!f.name[0]) break;
      for (auto& g : faults) {
        if (!g.name[0]) snprintf(g.name, sizeof g.name, "%s", f.name);
        if (strcmp(g.name, f.name) == 0) {
          g.n += f.n;
          ++g.runs;
          break;
        }
      }
    }
    if (st == 2) {
      report(i, false);
      rc = 1;
      if (strstr(o.known, g_sh->kind) == nullptr) break;
    } else if (st == 3) {
      ++limits;
      if (limits <= 3) report(i, false);
    } else if (total == 1) {
      report(i, false);
    }
  }
  printf("{\"t\":\"sum\",\"runs\":%lu,\"steps\":%lu,\"switches\":%lu,\"limits\":%lu,\"threads\":%lu,\"wall\":%.3f",
         (unsigned long)total, (unsigned long)steps, (unsigned long)switches,
         (unsigned long)limits, (unsigned long)maxthreads, WallNow() - t0);
  printf(",\"faults\":{");
  for (int i = 0; i < 64 && faults[i].name[0]; ++i) {
    printf("%s\"%s\":[%lu,%lu]", i ? "," : "", faults[i].name, (unsigned long)faults[i].n, (unsigned long)faults[i].runs);
  }
  printf("},\"hashes\":[");
  for (size_t i = 0; i < hashes.size(); ++i) {
    printf("%s%lu", i ? "," : "", (unsigned long)(hashes[i] >> 12));
  }
  printf("]}\n");
  fflush(stdout);
  return rc;
}

void Setup() {
  if (g_arena) return;
  auto map = [](size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) abort();
    return p;
  };
  g_arena = (char*)map(kArenaSize);
  g_arena_end = g_arena + kArenaSize;
  g_bump = g_arena;
  g_live = (uint8_t*)map(kArenaSize / 8);
  g_shadow_arena = (Granule*)map(kArenaSize / 8 * sizeof(Granule));
  g_cell_pc_arena = (uint32_t*)map(kArenaSize / 8 * 16);
  g_data_lo = (char*)((uintptr_t)&__data_start & ~uintptr_t{7});
  g_data_hi = &_end;
  size_t dn = (g_data_hi - g_data_lo) / 8 + 8;
  g_shadow_data = (Granule*)map(dn * sizeof(Granule));
  g_cell_pc_data = (uint32_t*)map(dn * 16);
  g_sync.ents = (SyncTable::Ent*)map(SyncTable::kCap * sizeof(SyncTable::Ent));
}

void* Alloc(size_t n, size_t align) {
  Setup();
  if (align < 16) align = 16;
  uintptr_t p = (uintptr_t)g_bump + sizeof(Header);
  p = (p + align - 1) & ~(align - 1);
  if (p + n + 32 > (uintptr_t)g_arena_end) {
    if (g_sh) Limit("arena exhausted");
    abort();
  }
  Header* h = (Header*)(p - sizeof(Header));
  h->size = n;
  h->magic = kMagic;
  g_bump = (char*)((p + n + 7) & ~uintptr_t{7});
  size_t a = (p - (uintptr_t)g_arena) >> 3;
  size_t b = (g_bump - g_arena) >> 3;
  memset(g_live + a, 1, b - a);
  if (g_active) memset((void*)p, 0xcb, n);
  return (void*)p;
}

void Free(void* ptr, uintptr_t pc) {
  if (!ptr) return;
  char* p = (char*)ptr;
  if (p < g_arena || p >= g_arena_end) {
    if (g_sh) Fail("bad-free", "delete of a pointer that was not allocated");
    return;
  }
  Header* h = (Header*)(p - sizeof(Header));
  if (h->magic != kMagic) {
    if (g_sh) Fail("bad-free", "delete of an invalid pointer");
    return;
  }
  size_t a = (p - g_arena) >> 3;
  size_t n = (h->size + 7) >> 3;
  if (n && g_live[a] != 1) {
    if (g_sh) Fail("double-free", std::string("double delete by ") + g_threads[g_cur].name);
    return;
  }
  if (g_active) {
    PointPc(pc);
    if (h->size && !g_nopreempt) CheckAccess(p, h->size, true, false, pc);
    memset(p, 0xdd, h->size);
  }
  memset(g_live + a, 2, n);
}

}  // namespace
}  // namespace vsim

int main(int argc, char** argv) {
  vsim::Setup();
  return vsim::Main(argc, argv);
}

// ---- allocation ---------------------------------------------------------------
#define PC ((uintptr_t)__builtin_return_address(0))
void* operator new(size_t n) { return vsim::Alloc(n, 16); }
void* operator new[](size_t n) { return vsim::Alloc(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vsim::Alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vsim::Alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return vsim::Alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return vsim::Alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { vsim::Free(p, PC); }
void operator delete[](void* p) noexcept { vsim::Free(p, PC); }
void operator delete(void* p, size_t) noexcept { vsim::Free(p, PC); }
void operator delete[](void* p, size_t) noexcept { vsim::Free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { vsim::Free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { vsim::Free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vsim::Free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { vsim::Free(p, PC); }

// ---- instrumentation entry points ------------------------------------------
using namespace vsim;
static inline void Access(void* p, size_t n, bool w, uintptr_t pc) {
  if (!g_active || g_nopreempt) return;
  PointPc(pc);
  CheckAccess((const char*)p, n, w, false, pc);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                          \
  void __tsan_read##n(void* p) { Access(p, n, false, PC); }            \
  void __tsan_write##n(void* p) { Access(p, n, true, PC); }            \
  void __tsan_unaligned_read##n(void* p) { Access(p, n, false, PC); }  \
  void __tsan_unaligned_write##n(void* p) { Access(p, n, true, PC); }  \
  void __tsan_volatile_read##n(void* p) { Access(p, n, false, PC); }   \
  void __tsan_volatile_write##n(void* p) { Access(p, n, true, PC); }   \
  void __tsan_unaligned_volatile_read##n(void* p) { Access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { Access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) Access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) Access(p, n, true, PC); }
void __tsan_vptr_read(void** p) { Access(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) Access(p, 8, true, PC);
}

static inline bool Acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool Rel(int mo) { return mo >= 3; }
static void AtomicAcquire(const void* p, int mo) {
  if (!g_active) return;
  Thread& t = g_threads[g_cur];
  if (uint32_t* vc = g_sync.Get((uintptr_t)p, false)) {
    if (Acq(mo)) Join(t.vc, vc);
    else Join(t.pend, vc);
  }
}
static void AtomicRelease(const void* p, int mo, bool rmw) {
  if (!g_active) return;
  Thread& t = g_threads[g_cur];
  if (Rel(mo)) {
    uint32_t* vc = g_sync.Get((uintptr_t)p, true);
    if (rmw) Join(vc, t.vc);
    else Copy(vc, t.vc);
    ++t.vc[g_cur];
  } else if (t.has_rel) {
    uint32_t* vc = g_sync.Get((uintptr_t)p, true);
    if (rmw) Join(vc, t.rel);
    else Copy(vc, t.rel);
  } else if (!rmw) {
    if (uint32_t* vc = g_sync.Get((uintptr_t)p, false)) memset(vc, 0, sizeof(VC));
  }
}
static inline void AtomicAccess(const volatile void* p, size_t n, bool w, uintptr_t pc) {
  if (!g_active || g_nopreempt) return;
  PointPc(pc);
  CheckAccess((const char*)p, n, w, true, pc);
}
void __tsan_atomic_thread_fence(int mo) {
  if (!g_active) return;
  Thread& t = g_threads[g_cur];
  if (Acq(mo)) Join(t.vc, t.pend);
  if (mo == 5) {
    Join(t.vc, g_fence_vc);
    Join(g_fence_vc, t.vc);
  }
  if (Rel(mo)) {
    Copy(t.rel, t.vc);
    t.has_rel = true;
    ++t.vc[g_cur];
  }
  PointPc(PC);
}
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(N, T)                                                           \
  T __tsan_atomic##N##_load(const volatile T* p, int mo) {                     \
    AtomicAccess(p, sizeof(T), false, PC);                                     \
    AtomicAcquire((const void*)p, mo);                                         \
    return *p;                                                                 \
  }                                                                            \
  void __tsan_atomic##N##_store(volatile T* p, T v, int mo) {                  \
    AtomicAccess(p, sizeof(T), true, PC);                                      \
    AtomicRelease((const void*)p, mo, false);                                  \
    *p = v;                                                                    \
  }                                                                            \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) {                  \
    AtomicAccess(p, sizeof(T), true, PC);                                      \
    AtomicAcquire((const void*)p, mo);                                         \
    AtomicRelease((const void*)p, mo, true);                                   \
    T o = *p;                                                                  \
    *p = v;                                                                    \
    return o;                                                                  \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v,     \
                                                 int mo, int fmo) {            \
    AtomicAccess(p, sizeof(T), true, PC);                                      \
    if (*p == *e) {                                                            \
      AtomicAcquire((const void*)p, mo);                                       \
      AtomicRelease((const void*)p, mo, true);                                 \
      *p = v;                                                                  \
      return 1;                                                                \
    }                                                                          \
    AtomicAcquire((const void*)p, fmo);                                        \
    *e = *p;                                                                   \
    return 0;                                                                  \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v,       \
                                               int mo, int fmo) {              \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo);       \
  }                                                                            \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo,   \
                                            int fmo) {                         \
    __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo);             \
    return e;                                                                  \
  }
#define FETCH(N, T, name, expr)                                                \
  T __tsan_atomic##N##_fetch_##name(volatile T* p, T v, int mo) {              \
    AtomicAccess(p, sizeof(T), true, PC);                                      \
    AtomicAcquire((const void*)p, mo);                                         \
    AtomicRelease((const void*)p, mo, true);                                   \
    T o = *p;                                                                  \
    *p = expr;                                                                 \
    return o;                                                                  \
  }
#define ALL(N, T)                                                              \
  ATOMIC(N, T)                                                                 \
  FETCH(N, T, add, o + v) FETCH(N, T, sub, o - v) FETCH(N, T, and, o & v)      \
  FETCH(N, T, or, o | v) FETCH(N, T, xor, o ^ v) FETCH(N, T, nand, ~(o & v))
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)

// Initialisation of function-local statics.
int __cxa_guard_acquire(uint64_t* g) {
  for (;;) {
    PointPc(PC);
    uint8_t* b = (uint8_t*)g;
    if (b[0]) {
      if (g_active) Acquire(g);
      return 0;
    }
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (!g_active) abort();
    Block(g, "the initialisation of a static");
  }
}
void __cxa_guard_release(uint64_t* g) {
  uint8_t* b = (uint8_t*)g;
  if (g_active) Release(g);
  b[0] = 1;
  b[1] = 0;
  if (g_active) {
    Wake(g);
    PointPc(PC);
  }
}
void __cxa_guard_abort(uint64_t* g) {
  ((uint8_t*)g)[1] = 0;
  if (g_active) Wake(g);
}
}
