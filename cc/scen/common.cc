#include "common.h"

#include <cstdarg>
#include <cstdio>

namespace arolla {
AROLLA_DEFINE_SIMPLE_QTYPE(TOK, sim::Tok);
AROLLA_DEFINE_SIMPLE_QTYPE(TOK1, sim::Tok1);
}  // namespace arolla

namespace sim {

void Violation(const char* kind, const char* fmt, ...) {
  char buf[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  vsim::Fail(kind, buf);
}

const char* ThreadName(const char* stem, int i) {
  vsim::NoPreempt np;
  return (new std::string(stem + std::to_string(i)))->c_str();
}

TypedValue MakeTok(int64_t v) { return TypedValue::FromValue(Tok(v)); }
int64_t GetTok(TypedRef r) {
  if (r.GetType() == GetQType<Tok>()) return r.UnsafeAs<Tok>().get();
  if (r.GetType() == GetQType<Tok1>()) return r.UnsafeAs<Tok1>().get();
  Violation("wrong-type", "an item of type %s", std::string(r.GetType()->name()).c_str());
}
int64_t GetTok(const TypedValue& v) { return GetTok(v.AsRef()); }

// ---- executors --------------------------------------------------------------
struct SimPool::Core {
  std::deque<TaskFn> queue;
  std::vector<int> workers;
  bool fifo = true;
  bool stopped = false;
  int discard_after = -1;
  bool discarding = false;
  int posted = 0;
  char key = 0;
};

SimPool::SimPool(int threads, bool fifo, int discard_after)
    : core_(std::make_shared<Core>()) {
  core_->fifo = fifo;
  core_->discard_after = discard_after;
  for (int i = 0; i < threads; ++i) {
    static const char* names[] = {"worker0", "worker1", "worker2", "worker3"};
    vsim::Spawn(
        [c = core_] {
          for (;;) {
            std::optional<TaskFn> task;
            bool discard = false;
            {
              vsim::NoPreempt np;
              while (c->queue.empty() && !c->stopped) vsim::Block(c.get(), "idle pool");
              if (c->stopped) return;
              size_t i = c->fifo ? 0 : vsim::PickS(c->queue.size());
              task.emplace(std::move(c->queue[i]));
              c->queue.erase(c->queue.begin() + i);
              vsim::Acquire(&c->key);
              discard = c->discarding;
            }
            if (!discard) {
              std::move(*task)();
            } else {
              vsim::Count("task-discarded");
            }
            task.reset();
            vsim::Point();
          }
        },
        names[i]);
  }
}
SimPool::~SimPool() noexcept {
  vsim::NoPreempt np;
  core_->stopped = true;
  vsim::Wake(core_.get());
}
bool SimPool::discarded() const { return core_->discarding; }
void SimPool::DoSchedule(TaskFn task) noexcept {
  vsim::Point();
  bool now = false;
  {
    vsim::NoPreempt np;
    if (core_->discard_after >= 0 && core_->posted >= core_->discard_after) {
      core_->discarding = true;
    }
    ++core_->posted;
    now = core_->discarding && Chance(1, 2);
    if (!now) {
      vsim::Release(&core_->key);
      core_->queue.push_back(std::move(task));
      vsim::WakeOne(core_.get());
    }
  }
  if (now) {
    vsim::Count("task-discarded");
    task = nullptr;
  }
  vsim::Point();
}

Exec MakeExec(bool discard) {
  Exec e;
  int kind = Pick(6);
  if (discard && Chance(1, 3)) {
    e.pool = std::make_shared<SimPool>(1 + Pick(2), Pick(2) == 0, Pick(8));
    e.ptr = e.pool;
    e.discards = true;
    e.name = "discarding pool";
  } else if (kind <= 2) {
    e.pool = std::make_shared<SimPool>(1 + Pick(3), Pick(2) == 0, -1);
    e.ptr = e.pool;
    e.name = "pool";
  } else if (kind == 3) {
    e.ptr = MakeAsioExecutor(1 + Pick(3));
    e.name = "asio";
  } else if (kind == 4) {
    e.ptr = GetEagerExecutor();
    e.name = "eager";
    e.inline_tasks = true;
  } else {
    e.ptr = GetDefaultAsioExecutor();
    e.name = "default asio";
  }
  if (Chance(1, 4)) {
    e.ptr = std::make_shared<DerivedExecutor>(e.ptr, [p = Probe()](ContextGuard& g) {
      g.init<Probe>();
    });
  }
  vsim::Log("executor: %s", e.name);
  return e;
}
bool Discarded(const Exec& e) { return e.pool && e.pool->discarded(); }

// ---- statuses ---------------------------------------------------------------
End ToEnd(const absl::Status& s) {
  return End{true, (int)s.code(), std::string(s.message())};
}
End OkEnd() { return End{true, 0, ""}; }
std::string Str(const End& e) {
  if (!e.closed) return "not closed";
  if (e.code == 0) return "OK";
  return "error " + std::to_string(e.code) + " '" + e.msg + "'";
}
std::string Str(const std::vector<int64_t>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? " " : "") + std::to_string(v[i]);
  return r + "]";
}
absl::Status SomeError(int64_t salt) {
  static const absl::StatusCode codes[] = {
      absl::StatusCode::kInvalidArgument, absl::StatusCode::kInternal,
      absl::StatusCode::kCancelled, absl::StatusCode::kOutOfRange};
  return absl::Status(codes[salt & 3], "boom:" + std::to_string(salt));
}
bool IsOrphaned(const End& e) { return e.closed && e.code == (int)absl::StatusCode::kCancelled && e.msg == "orphaned"; }

// ---- sources ----------------------------------------------------------------
Source MakeSource(const SourceOptions& o) {
  Source s;
  QTypePtr qt = o.qtype ? o.qtype : GetQType<Tok>();
  int n = o.items.empty() ? Pick(o.max_items + 1) : (int)o.items.size();
  if (o.single && !Chance(1, 8)) n = 1;
  for (int i = 0; i < n; ++i) s.vals.push_back(o.base + i + 1);
  auto item = [&o](int i) { return o.items.empty() ? MakeTok(o.base + i + 1) : o.items[i]; };
  absl::Status end;
  bool drop = false;
  if (o.errors && Chance(1, 4)) {
    if (Chance(1, 3)) {
      drop = true;
      end = absl::CancelledError("orphaned");
      vsim::Count("writer-dropped");
    } else {
      end = SomeError(o.base + 900 + n);
      vsim::Count("input-error");
    }
  }
  s.end = ToEnd(end);
  int kind = Pick(3);
  if (kind == 2 && (n == 1 || !end.ok())) {  // a future
    if (!end.ok()) {
      s.vals.clear();
    }
    auto [future, writer] = MakeFuture(qt);
    absl::StatusOr<TypedValue> v(absl::UnknownError(""));
    if (end.ok()) {
      v = item(0);
    } else {
      v = end;
    }
    s.stream = StreamFromFuture(future);
    if (Chance(1, 2)) {
      if (!drop) std::move(writer).SetValue(std::move(v));
    } else {
      vsim::Spawn(
          [w = std::make_shared<FutureWriter>(std::move(writer)), v, drop]() mutable {
            Pause();
            if (!drop) std::move(*w).SetValue(std::move(v));
            w.reset();
          },
          ThreadName("future", o.base / 100));
    }
    return s;
  }
  auto [stream, writer] = MakeStream(qt, Pick(4) == 1 ? 1 + Pick(8) : 0);
  s.stream = stream;
  if (kind == 0) {
    for (int i = 0; i < n; ++i) writer->Write(item(i).AsRef());
    if (!drop) std::move(*writer).Close(end);
    return s;
  }
  std::vector<TypedValue> items;
  for (int i = 0; i < n; ++i) items.push_back(item(i));
  vsim::Spawn(
      [w = std::shared_ptr<StreamWriter>(std::move(writer)), items, drop, end]() mutable {
        for (auto& v : items) {
          Pause();
          w->Write(v.AsRef());
        }
        items.clear();
        Pause();
        if (!drop) std::move(*w).Close(end);
        w.reset();
      },
      ThreadName("source", o.base / 100));
  return s;
}

// ---- readers ----------------------------------------------------------------
namespace {
struct Signal {
  bool fired = false;
  int count = 0;
};
}  // namespace

void ReadAll(StreamReaderPtr reader, Read& out, int stop_after) {
  out.started = true;
  bool notified = false;
  for (;;) {
    auto r = reader->TryRead();
    if (auto* item = r.item()) {
      int64_t v = out.get(*item);
      if (out.on_item) out.on_item(*item);
      {
        vsim::NoPreempt np;
        out.vals.push_back(v);
      }
      notified = false;
      if (stop_after >= 0 && (int)out.vals.size() >= stop_after) return;
      continue;
    }
    if (auto* st = r.close_status()) {
      vsim::NoPreempt np;
      out.end = ToEnd(*st);
      vsim::Log("read %s then %s", Str(out.vals).c_str(), Str(out.end).c_str());
      return;
    }
    if (notified) {
      Violation("empty-after-notify", "TryRead returned nothing after the subscribed callback was invoked");
    }
    auto sig = std::make_shared<Signal>();
    reader->SubscribeOnce([sig] {
      vsim::NoPreempt np;
      if (++sig->count > 1) Violation("notified-twice", "a callback was invoked twice");
      sig->fired = true;
      vsim::Release(sig.get());
      vsim::Wake(sig.get());
    });
    {
      vsim::NoPreempt np;
      while (!sig->fired) vsim::Block(sig.get(), "a stream notification");
      vsim::Acquire(sig.get());
    }
    notified = true;
  }
}

ReadPtr SpawnReader(StreamPtr stream, const char* name, int stop_after) {
  auto out = std::make_shared<Read>();
  vsim::Spawn(
      [out, stream = std::move(stream), stop_after]() mutable {
        auto reader = stream->MakeReader();
        stream.reset();
        ReadAll(std::move(reader), *out, stop_after);
      },
      name);
  return out;
}

Read ReadClosed(const StreamPtr& s, std::function<int64_t(TypedRef)> get) {
  Read out;
  if (get) out.get = get;
  out.started = true;
  auto reader = s->MakeReader();
  for (;;) {
    auto r = reader->TryRead();
    if (auto* item = r.item()) {
      out.vals.push_back(out.get(*item));
    } else {
      if (auto* st = r.close_status()) out.end = ToEnd(*st);
      return out;
    }
  }
}

void CheckNoLeaks() {
  int64_t toks = vsim::Counter(kLiveToks, 0), probes = vsim::Counter(kLiveProbes, 0);
  if (toks != 0 || probes != 0) {
    Violation("leak", "%ld values and %ld closures are still alive at the end", (long)toks, (long)probes);
  }
}

bool IsPrefix(const std::vector<int64_t>& a, const std::vector<int64_t>& b) {
  return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());
}

}  // namespace sim
