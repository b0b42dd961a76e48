// The Python side of streams and executors: threads of a Python program that
// write, read, wait with timeouts, subscribe and schedule, under a simulated
// GIL, a simulated clock, cancellations and Ctrl-C.
#include <algorithm>
#include <cmath>
#include <map>

#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "arolla/util/permanent_event.h"
#include "minipy.h"
#include "pipeline.h"
#include "py/koladata/functor/parallel/py_executor.h"
#include "py/koladata/functor/parallel/py_stream.h"

namespace sim {
namespace {
using namespace minipy;  // NOLINT
using minipy::Exception;

constexpr int64_t kMs = 1000000;

// What has happened to a stream.
struct Truth {
  std::vector<int64_t> items;   // in the order of the calls of write()
  std::vector<int64_t> done;    // when those had returned (-1: not yet)
  int closing = 0;              // 0 open, 1 ok, 2 exception, 3 dropped
  bool closed = false;          // the call that closes it has returned
  int64_t closed_at = 0;
  PyObject* exc = nullptr;      // borrowed from `exc_ref`
};
using TruthPtr = std::shared_ptr<Truth>;

// The context that a thread's calls run in.
struct Ctx {
  CancellationContextPtr ctx;   // explicit, or null
  bool signals = false;         // Ctrl-C reaches the thread
  bool cancelled = false;       // cancelling has begun
  bool cancel_done = false;     // Cancel() has returned
  int thread = -1;
  // The waiting calls of the thread.
  int calls = 0;
  bool in_call = false, waits = false, timed = false;
  int interrupted = 0;          // the call that Ctrl-C has reached
};
using CtxPtr = std::shared_ptr<Ctx>;
thread_local Ctx* t_ctx = nullptr;
struct InCall {
  InCall(Ctx* c, bool timed) : c(c) {
    vsim::NoPreempt np;
    ++c->calls;
    c->in_call = true;
    c->waits = false;
    c->timed = timed;
    t_ctx = c;
  }
  ~InCall() {
    vsim::NoPreempt np;
    c->in_call = false;
    t_ctx = nullptr;
  }
  Ctx* c;
};
// Whether the thread's context has been cancelled for good.
bool Dead(const Ctx& c) {
  vsim::NoPreempt np;
  return c.ctx && c.cancel_done;
}

// The timeout of the call in progress, and when it may end at the latest: that
// much after its first wait (time may pass before it gets to look at the
// clock), or after yield_all() has returned.
thread_local int64_t t_timeout = vsim::kNoDeadline;
thread_local int64_t t_latest = vsim::kNoDeadline;

void OnEventWait(int64_t d) {
  if (t_ctx != nullptr) t_ctx->waits = true;
  if (t_timeout == vsim::kNoDeadline) return;
  if (t_latest == vsim::kNoDeadline) t_latest = vsim::Now() + t_timeout;
  // A conversion between seconds as a double and nanoseconds may be off by a
  // little.
  if (d > t_latest + kMs / 100) Violation("waits-too-long", "a call with a timeout until %ld waits until %ld", (long)t_latest, (long)d);
  t_latest = d;
}

PyObjectPtr Item(int64_t v) { return PyObjectPtr::Own(arolla::python::WrapAsPyQValue(MakeTok(v))); }
int64_t Value(PyObject* o) {
  if (!arolla::python::IsPyQValueInstance(o)) Violation("wrong-items", "an item is not a QValue");
  return GetTok(arolla::python::UnsafeUnwrapPyQValue(o));
}
std::vector<int64_t> Values(PyObject* list) {
  if (!Py_IS_TYPE(list, &PyList_Type)) Violation("wrong-items", "the result is not a list");
  std::vector<int64_t> r;
  for (Py_ssize_t i = 0; i < PyList_GET_SIZE(list); ++i) r.push_back(Value(PyList_GET_ITEM(list, i)));
  return r;
}

void Sleep(int64_t ns) {
  ReleasePyGIL g;
  absl::SleepFor(absl::Nanoseconds(ns));
}
template <typename F>
void PyThread(const char* name, F f) {
  vsim::Spawn([f = std::move(f)]() mutable {
    AcquirePyGIL gil;
    f();
    // The closure may hold Python objects.
    auto last = std::move(f);
  }, name);
}

// A stream with its objects. The references are dropped under the GIL.
struct StreamObj {
  PyObjectPtr stream, writer, exc_ref;
  TruthPtr truth = std::make_shared<Truth>();
  bool keep_stream = true;
};
using StreamObjPtr = std::shared_ptr<StreamObj>;

StreamObjPtr NewStream() {
  auto s = std::make_shared<StreamObj>();
  auto t = PyObjectPtr::Own(arolla::python::WrapAsPyQType(GetQType<Tok>()));
  auto cls = PyObjectPtr::Own((PyObject*)koladata::python::PyStreamType());
  auto r = CallClass((PyTypeObject*)cls.get(), "new", t.get());
  if (!r.ok()) Violation("wrong-result", "Stream.new() raised %s", Repr(r.exc.get()).c_str());
  s->stream = PyObjectPtr::NewRef(PyTuple_GET_ITEM(r.value.get(), 0));
  s->writer = PyObjectPtr::NewRef(PyTuple_GET_ITEM(r.value.get(), 1));
  return s;
}

// ---- writing -------------------------------------------------------------------
void Write(const StreamObjPtr& s, int64_t v) {
  Truth& t = *s->truth;
  auto item = Item(v);
  bool was_closing = t.closing;
  size_t at = t.items.size();
  if (!was_closing) {
    t.items.push_back(v);
    t.done.push_back(-1);
  }
  auto r = Call(s->writer.get(), "write", {item.get()});
  if (was_closing) {
    if (!r.Raised(PyExc_RuntimeError)) Violation("write-after-close", "write() to a closed stream: %s", r.ok() ? "returned" : Repr(r.exc.get()).c_str());
    return;
  }
  if (!r.ok() || r.value.get() != Py_None) Violation("wrong-result", "write() raised %s", Repr(r.exc.get()).c_str());
  t.done[at] = vsim::Now();
}
void Close(const StreamObjPtr& s, bool with_exception) {
  Truth& t = *s->truth;
  bool was_closing = t.closing;
  PyObjectPtr exc;
  if (with_exception) {
    static int n = 0;
    exc = PyObjectPtr::Own(Exception(Pick(2) ? PyExc_ValueError : PyExc_TimeoutError, "closed with " + std::to_string(++n)));
  }
  if (!was_closing) {
    t.closing = with_exception ? 2 : 1;
    t.exc = exc.get();
    if (with_exception) s->exc_ref = exc;
  }
  auto r = with_exception ? (Pick(2) ? Call(s->writer.get(), "close", {exc.get()}) : Call(s->writer.get(), "close", {}, {{"exception", exc.get()}}))
                          : Call(s->writer.get(), "close");
  if (was_closing) {
    if (!r.Raised(PyExc_RuntimeError)) Violation("double-close", "close() of a closed stream: %s", r.ok() ? "returned" : Repr(r.exc.get()).c_str());
    return;
  }
  if (!r.ok() || r.value.get() != Py_None) Violation("wrong-result", "close() raised %s", Repr(r.exc.get()).c_str());
  t.closed = true;
  t.closed_at = vsim::Now();
}
// Drops the writer; `raising`: while an exception unwinds the stack.
void DropWriter(const StreamObjPtr& s, bool raising) {
  Truth& t = *s->truth;
  bool was_closing = t.closing;
  if (!was_closing) {
    t.closing = 3;
    vsim::Count("writer-dropped");
  }
  if (raising) {
    vsim::Count("dropped-while-raising");
    PyErr_SetString(PyExc_ValueError, "unwinding");
  }
  s->writer.reset();
  if (raising) {
    auto e = PyObjectPtr::Own(PyErr_GetRaisedException());
    if (e == nullptr || Message(e.get()) != "unwinding") Violation("exception-lost", "dropping a writer replaces the exception being raised by %s", Repr(e.get()).c_str());
  }
  if (!was_closing) {
    t.closed = true;
    t.closed_at = vsim::Now();
  }
}

// ---- judging what a reader got ---------------------------------------------------
void CheckPrefix(const Truth& t, const std::vector<int64_t>& got, const char* what) {
  if (!IsPrefix(got, t.items)) Violation("wrong-items", "%s gave %s of %s", what, Str(got).c_str(), Str(t.items).c_str());
}
void CheckEnd(const Truth& t, const std::vector<int64_t>& got, const char* what) {
  if (t.closing != 1) Violation("wrong-end", "%s ended well although the stream %s", what, t.closing ? "failed" : "is open");
  if (got != t.items) Violation("wrong-items", "%s gave %s of %s, and the end", what, Str(got).c_str(), Str(t.items).c_str());
}
// Judges an exception; `read`: how many items were read before.
void CheckExc(const Truth& t, const Ctx& c, PyObject* e, size_t read, int64_t deadline, bool needs_all, const char* what) {
  if (t.closing == 2 && e == t.exc) {
    if (needs_all && read != t.items.size()) Violation("wrong-items", "%s raised the writer's exception after %zu of %zu items", what, read, t.items.size());
    return;
  }
  if (const absl::Status* s = StatusOf(e)) {
    if (t.closing == 3 && absl::IsCancelled(*s) && s->message() == "orphaned") {
      if (needs_all && read != t.items.size()) Violation("wrong-items", "%s raised `orphaned` after %zu of %zu items", what, read, t.items.size());
      return;
    }
    bool cancelled;
    {
      vsim::NoPreempt np;
      cancelled = c.cancelled;
    }
    if (cancelled && absl::IsCancelled(*s) && s->message() == (c.ctx ? "cancelled" : "interrupted")) return;
  }
  if ((PyObject*)TypeOf(e) == PyExc_TimeoutError && Message(e).empty()) {
    if (deadline == vsim::kNoDeadline) Violation("wrong-timeout", "%s without a timeout raised TimeoutError", what);
    if (vsim::Now() < deadline) Violation("wrong-timeout", "%s raised TimeoutError at %ld, before %ld", what, (long)vsim::Now(), (long)deadline);
    // A call that is still running callbacks (with an eager executor, those of
    // other readers) has not yet told this one.
    bool told = true;
    for (size_t i = read; i < t.items.size() && told; ++i) {
      told = t.done[i] >= 0 && t.done[i] < deadline;
      if (told && needs_all) Violation("wrong-timeout", "%s raised TimeoutError although item %zu was there at %ld, before %ld", what, i, (long)t.done[i], (long)deadline);
    }
    if (told && t.closed && t.closed_at < deadline) Violation("wrong-timeout", "%s raised TimeoutError although the stream was closed at %ld, before %ld", what, (long)t.closed_at, (long)deadline);
    return;
  }
  Violation("wrong-exception", "%s raised %s; the stream: %d, %zu items", what, Repr(e).c_str(), t.closing, t.items.size());
}

// Judges a call in a context that was cancelled before.
void MustBeCancelled(const Result& r, const char* what, PyObject* or_exc = nullptr) {
  if (!r.ok() && or_exc != nullptr && r.exc.get() == or_exc) return;
  const absl::Status* s = r.ok() || r.exc == nullptr ? nullptr : StatusOf(r.exc.get());
  if (s == nullptr || !absl::IsCancelled(*s)) Violation("ignores-cancellation", "%s in a cancelled context %s", what, r.ok() ? "returned" : Repr(r.exc.get()).c_str());
}

struct Timeout {
  PyObjectPtr arg;
  int64_t deadline;  // at the earliest
  int64_t timeout = vsim::kNoDeadline;
};
Timeout PickTimeout(bool must) {
  Timeout r;
  int k = Pick(4);
  if (must && k < 2) k = 2;
  if (k <= 1) {
    r.arg = PyObjectPtr::NewRef(Py_None);
    r.deadline = vsim::kNoDeadline;
    return r;
  }
  int ms = k == 2 ? 1 + Pick(20) : 0;
  r.arg = PyObjectPtr::Own(Pick(2) ? PyFloat_FromDouble(ms / 1000.0) : ms % 1000 ? PyFloat_FromDouble(ms / 1000.0) : PyLong_FromLong(ms / 1000));
  r.timeout = ms * kMs;
  r.deadline = vsim::Now() + r.timeout;
  vsim::Count("timeout");
  return r;
}

// Calls with arguments that are not valid.
void BadCalls(const StreamObjPtr& s, PyObject* executor) {
  auto expect = [](const Result& r, PyObject* type, const char* what) {
    if (!r.Raised(type)) Violation("bad-argument", "%s: %s", what, r.ok() ? "no exception" : Repr(r.exc.get()).c_str());
  };
  auto one = PyObjectPtr::Own(PyLong_FromLong(1));
  auto minus = PyObjectPtr::Own(PyFloat_FromDouble(-0.5));
  auto text = PyObjectPtr::Own(PyUnicode_FromString("x"));
  auto zero = PyObjectPtr::Own(PyLong_FromLong(0));
  auto other = PyObjectPtr::Own(arolla::python::WrapAsPyQValue(TypedValue::FromValue(int64_t{1})));
  auto* st = s->stream.get();
  auto fn = PyObjectPtr::Own(Function([] { return Py_NewRef(Py_None); }));
  switch (Pick(12)) {
    case 0: return expect(Call(st, "read_all", {}, {{"timeout", minus.get()}}), PyExc_ValueError, "read_all(timeout=-0.5)");
    case 1: return expect(Call(st, "read_all", {}, {{"timeout", text.get()}}), PyExc_TypeError, "read_all(timeout='x')");
    case 2: return expect(Call(st, "read_all"), PyExc_TypeError, "read_all()");
    case 3: return expect(Call(st, "yield_all", {}, {{"timeout", minus.get()}}), PyExc_ValueError, "yield_all(timeout=-0.5)");
    case 4: return expect(Call(st, "yield_all", {}, {{"timeout", text.get()}}), PyExc_TypeError, "yield_all(timeout='x')");
    case 5: return expect(Call(st, "yield_all"), PyExc_TypeError, "yield_all()");
    case 6: {
      auto reader = Call(st, "make_reader");
      expect(Call(reader.value.get(), "read_available", {zero.get()}), PyExc_ValueError, "read_available(0)");
      return expect(Call(reader.value.get(), "read_available", {}, {{"limit", text.get()}}), PyExc_TypeError, "read_available(limit='x')");
    }
    case 7: {
      auto reader = Call(st, "make_reader");
      expect(Call(reader.value.get(), "subscribe_once", {one.get(), fn.get()}), PyExc_TypeError, "subscribe_once(1, f)");
      expect(Call(reader.value.get(), "subscribe_once", {st, fn.get()}), PyExc_TypeError, "subscribe_once(stream, f)");
      return expect(Call(reader.value.get(), "subscribe_once", {executor, one.get()}), PyExc_TypeError, "subscribe_once(executor, 1)");
    }
    case 8: return expect(Call(executor, "schedule", {one.get()}), PyExc_TypeError, "schedule(1)");
    case 9:
      if (s->writer == nullptr) return;
      return expect(Call(s->writer.get(), "write", {one.get()}), PyExc_TypeError, "write(1)");
    case 10:
      if (s->writer == nullptr) return;
      return expect(Call(s->writer.get(), "write", {other.get()}), PyExc_ValueError, "write(another type)");
    default:
      if (s->writer == nullptr) return;
      return expect(Call(s->writer.get(), "close", {one.get()}), PyExc_TypeError, "close(1)");
  }
}

// Two threads take the items of one iterator.
void SharedIterator(PyObjectPtr it, TruthPtr truth, CtxPtr c, int64_t timeout, int64_t latest) {
  vsim::Count("shared-iterator");
  struct Shared {
    PyObjectPtr it;
    std::vector<int64_t> got;
    int calls = 0, running = 0, threads = 2;
    bool ended = false;
  };
  auto sh = std::make_shared<Shared>();
  sh->it = std::move(it);
  auto consume = [sh, truth, c, timeout, latest] {
    std::vector<int64_t> mine;
    for (int busy = 0; busy < 4;) {
      Tick();
      t_timeout = timeout;
      t_latest = latest;
      bool other = sh->running > 0;
      int calls = ++sh->calls;
      ++sh->running;
      auto r = Next(sh->it.get());
      --sh->running;
      t_timeout = vsim::kNoDeadline;
      if (r.ok()) {
        mine.push_back(Value(r.value.get()));
        continue;
      }
      if (r.exc == nullptr || r.Raised(PyExc_StopIteration)) {
        sh->ended = true;
        if (truth->closing != 1) Violation("wrong-end", "a shared iterator ended well although the stream %s", truth->closing ? "failed" : "is open");
        break;
      }
      if (r.Raised(PyExc_ValueError) && r.exc.get() != truth->exc) {
        // As with a generator.
        if (!other && sh->calls == calls) Violation("wrong-exception", "next() raised %s although no other call is running", Repr(r.exc.get()).c_str());
        vsim::Count("iterator-busy");
        ++busy;
        Sleep(kMs);
        continue;
      }
      CheckExc(*truth, *c, r.exc.get(), 0, timeout == vsim::kNoDeadline ? timeout : 0, false, "next()");
      break;
    }
    size_t at = 0;
    for (int64_t v : mine) {
      while (at < truth->items.size() && truth->items[at] != v) ++at;
      if (at++ >= truth->items.size()) Violation("wrong-items", "a thread got %s of %s", Str(mine).c_str(), Str(truth->items).c_str());
    }
    sh->got.insert(sh->got.end(), mine.begin(), mine.end());
    if (--sh->threads > 0) return;
    sh->it.reset();
    if (!sh->ended) return;
    auto all = truth->items;
    std::sort(all.begin(), all.end());
    std::sort(sh->got.begin(), sh->got.end());
    if (sh->got != all) Violation("wrong-items", "two threads got %s of %s, and the end", Str(sh->got).c_str(), Str(all).c_str());
  };
  PyThread("sharer", [c, consume] {
    std::optional<CancellationContext::ScopeGuard> guard;
    if (c->ctx) guard.emplace(c->ctx);
    consume();
  });
  consume();
}

void PyStreams() {
  arolla::g_on_event_wait = OnEventWait;
  Unraisable().clear();
  Exec ex = MakeExec();
  const bool inline_tasks = ex.inline_tasks;
  struct World {
    PyObjectPtr executor;
    std::vector<StreamObjPtr> streams;
    std::map<std::string, int> raised;   // exceptions of callbacks
    int subscribed = 0, notified = 0, scheduled = 0, ran = 0;
    int writers = 0, writer_threads = 0;
    std::vector<CtxPtr> readers;
    const void* raw_executor = nullptr;
    bool go = false;             // lets the stalled writers continue
  };
  auto w = std::make_shared<World>();
  int nstreams = 1 + Pick(2);
  {
    AcquirePyGIL gil;
    w->raw_executor = ex.ptr.get();
    w->executor = PyObjectPtr::Own(arolla::python::WrapAsPyQValue(TypedValue::FromValue(ex.ptr)));
    for (int i = 0; i < nstreams; ++i) w->streams.push_back(NewStream());
  }
  // The program's reference is the last one.
  ex.ptr.reset();
  ex.pool.reset();

  // The cancellation context of a thread, and maybe who cancels it.
  auto make_ctx = [](int thread_hint) {
    auto c = std::make_shared<Ctx>();
    int k = Pick(4);
    if (k == 1) {
      c->ctx = CancellationContext::Make();
    } else if (k == 2) {
      c->signals = true;
    }
    return c;
  };
  auto cancel_later = [](CtxPtr c, bool must) {
    if (!c->ctx && !c->signals) return;
    if (!must && Pick(2)) return;
    vsim::Count(c->ctx ? "cancelled" : "ctrl-c");
    vsim::Spawn([c] {
      for (int n = Pick(6); n > 0; --n) Pause();
      if (Pick(2)) absl::SleepFor(absl::Milliseconds(Pick(10)));
      {
        vsim::NoPreempt np;
        c->cancelled = true;
      }
      if (c->ctx) {
        c->ctx->Cancel(absl::CancelledError("cancelled"));
        vsim::NoPreempt np;
        c->cancel_done = true;
      } else {
        int thread, call;
        bool reached;
        {
          vsim::NoPreempt np;
          thread = c->thread;
          call = c->calls;
          reached = c->in_call && c->waits;
        }
        reached |= Interrupt(thread);
        vsim::NoPreempt np;
        if (reached && c->in_call && c->calls == call) c->interrupted = call;
      }
    }, "canceller");
  };
  auto enter = [](const CtxPtr& c, std::optional<CancellationContext::ScopeGuard>& guard) {
    {
      vsim::NoPreempt np;
      c->thread = vsim::CurrentThread();
    }
    HandlesSignals(c->signals);
    if (c->ctx) guard.emplace(c->ctx);
  };

  // Some writers may stall until nothing else can happen.
  const bool stalls = Chance(1, 4);
  if (stalls) vsim::Count("writer-stalls");
  auto stall = [w, stalls] {
    if (!stalls || Pick(3)) return;
    ReleasePyGIL g;
    vsim::NoPreempt np;
    while (!w->go) vsim::Block(&w->go, "idle: a stalled writer");
  };

  // Writers. A stream may have two threads that write to it.
  int64_t next_value = 0;
  for (int i = 0; i < nstreams; ++i) {
    int nw = Chance(1, 4) ? 2 : 1;
    auto left = std::make_shared<int>(nw);
    for (int k = 0; k < nw; ++k) {
      int64_t base = (next_value += 100);
      PyThread(ThreadName("writer", 2 * i + k), [w, i, base, left, nw, stall] {
        StreamObjPtr s = w->streams[i];
        int n = Pick(6);
        for (int j = 0; j < n; ++j) {
          Tick();
          if (Chance(1, 4)) Sleep(Pick(12) * kMs);
          stall();
          if (Chance(1, 8)) BadCalls(s, w->executor.get());
          Write(s, base + j);
          if (Chance(1, 8)) {
            bool open = !s->truth->closing;
            auto o = Call(s->writer.get(), "orphaned");
            if (!o.ok() || (o.value.get() != Py_True && o.value.get() != Py_False)) Violation("wrong-result", "orphaned() failed");
            if (open && o.value.get() == Py_True) Violation("wrong-result", "orphaned() although the stream can be read");
            if (s->truth->closed && o.value.get() == Py_False) Violation("wrong-result", "not orphaned() although the stream is closed");
          }
        }
        Tick();
        if (Chance(1, 4)) Sleep(Pick(25) * kMs);
        stall();
        int how = Pick(8);
        if (nw == 2 && *left == 2 && Pick(2)) how = 7;
        if (how <= 3) Close(s, false);
        else if (how <= 5) Close(s, true);
        if (how <= 5 && Chance(1, 4)) {
          Tick();
          if (Pick(2)) Write(s, base + 50);
          else Close(s, Pick(2));
        }
        if (--*left == 0) DropWriter(s, Chance(1, 4));
      });
    }
  }

  // Readers.
  int nreaders = 1 + Pick(3);
  for (int i = 0; i < nreaders; ++i) {
    int kind = Pick(4);
    int si = Pick(nstreams);
    CtxPtr c = make_ctx(i);
    if (kind == 0) {
      PyThread(ThreadName("read_all", i), [w, si, c, enter] {
        std::optional<CancellationContext::ScopeGuard> guard;
        enter(c, guard);
        auto stream = w->streams[si]->stream;
        auto truth = w->streams[si]->truth;
        int n = 1 + Pick(2);
        for (int k = 0; k < n; ++k) {
          Tick();
          auto to = PickTimeout(false);
          t_timeout = to.timeout;
          t_latest = vsim::kNoDeadline;
          bool dead = Dead(*c);
          auto r = [&] {
            InCall in(c.get(), to.timeout != vsim::kNoDeadline);
            return Call(stream.get(), "read_all", {}, {{"timeout", to.arg.get()}});
          }();
          t_timeout = vsim::kNoDeadline;
          if (dead) MustBeCancelled(r, "read_all()");
          if (r.ok()) {
            CheckEnd(*truth, Values(r.value.get()), "read_all()");
          } else {
            CheckExc(*truth, *c, r.exc.get(), 0, to.deadline, false, "read_all()");
          }
        }
      });
    } else if (kind == 1) {
      PyThread(ThreadName("yield_all", i), [w, si, c, enter] {
        std::optional<CancellationContext::ScopeGuard> guard;
        enter(c, guard);
        auto stream = w->streams[si]->stream;
        auto truth = w->streams[si]->truth;
        auto to = PickTimeout(false);
        auto it = Call(stream.get(), "yield_all", {}, {{"timeout", to.arg.get()}});
        int64_t latest = to.timeout == vsim::kNoDeadline ? vsim::kNoDeadline : vsim::Now() + to.timeout;
        if (!it.ok()) Violation("wrong-exception", "yield_all() raised %s", Repr(it.exc.get()).c_str());
        stream.reset();
        if (Chance(1, 6)) {
          SharedIterator(it.value, truth, c, to.timeout, latest);
          return;
        }
        std::vector<int64_t> got;
        int after = Pick(3);
        for (;;) {
          Tick();
          t_timeout = to.timeout;
          t_latest = latest;
          auto r = [&] {
            InCall in(c.get(), to.timeout != vsim::kNoDeadline);
            return Next(it.value.get());
          }();
          t_timeout = vsim::kNoDeadline;
          if (r.ok()) {
            got.push_back(Value(r.value.get()));
            CheckPrefix(*truth, got, "yield_all()");
            continue;
          }
          if (r.exc == nullptr || r.Raised(PyExc_StopIteration)) {
            CheckEnd(*truth, got, "yield_all()");
          } else {
            CheckExc(*truth, *c, r.exc.get(), got.size(), to.deadline, true, "next()");
          }
          if (after-- <= 0) break;
        }
      });
    } else {
      // A reader that is driven by its callbacks, or a thread that waits for them.
      struct Chain {
        PyObjectPtr reader, executor;
        TruthPtr truth;
        CtxPtr c;
        std::vector<int64_t> got;
        bool over = false, want = false;
        StreamObjPtr s;
        int meddle = 0;
      };
      auto ch = std::make_shared<Chain>();
      ch->meddle = Chance(1, 4) ? 1 + Pick(3) : 0;
      auto read = [w, ch](bool notified) {
        PyObjectPtr limit;
        size_t lim = SIZE_MAX;
        if (Pick(3) == 0) {
          lim = 1 + Pick(2);
          limit = PyObjectPtr::Own(PyLong_FromLong(lim));
        }
        size_t sure = 0;  // what must be visible
        for (int64_t d : ch->truth->done) sure += d >= 0;
        bool sure_closed = ch->truth->closed;
        bool dead = arolla::Cancelled();
        auto r = limit != nullptr ? Call(ch->reader.get(), "read_available", {}, {{"limit", limit.get()}}) : Call(ch->reader.get(), "read_available");
        if (dead && (!r.ok() || r.value.get() != Py_None)) MustBeCancelled(r, "read_available()", ch->truth->exc);
        if (!r.ok()) {
          CheckExc(*ch->truth, *ch->c, r.exc.get(), ch->got.size(), vsim::kNoDeadline, true, "read_available()");
          ch->over = true;
        } else if (r.value.get() == Py_None) {
          CheckEnd(*ch->truth, ch->got, "read_available()");
          ch->over = true;
        } else {
          auto v = Values(r.value.get());
          if (v.size() > lim) Violation("wrong-items", "read_available(limit=%zu) gave %zu items", lim, v.size());
          ch->got.insert(ch->got.end(), v.begin(), v.end());
          CheckPrefix(*ch->truth, ch->got, "read_available()");
          if (v.empty() && notified) Violation("empty-notification", "read_available() gives nothing although the callback was called");
          if (v.empty() && sure_closed) Violation("empty-read", "read_available() gives nothing although the stream is closed");
          if (ch->got.size() < sure && v.size() < lim) Violation("empty-read", "read_available() gives %zu items although %zu are there", ch->got.size(), sure);
        }
        return;
      };
      // Subscribes; the callback runs `then`.
      auto subscribe = [w, ch, inline_tasks](std::function<void()> then) {
        auto calls = std::make_shared<int>(0);
        bool raises = Chance(1, 8);
        ++w->subscribed;
        std::string msg = "callback " + std::to_string(w->subscribed);
        if (raises) {
          ++w->raised[msg];
          vsim::Count("callback-raises");
        }
        auto cb = PyObjectPtr::Own(Function([w, ch, calls, then, raises, msg]() -> PyObject* {
          if (++*calls > 1) Violation("extra-callback", "a callback was called twice");
          if (CurrentExecutorScopeGuard::current_executor() != w->raw_executor) Violation("wrong-executor", "a callback does not run on its executor");
          ++w->notified;
          if (ch->c->ctx && arolla::CurrentCancellationContext() != ch->c->ctx) Violation("wrong-context", "a callback does not run under the subscriber's cancellation context");
          if (!ch->c->ctx && !ch->c->signals && arolla::CurrentCancellationContext() != nullptr) Violation("wrong-context", "a callback runs under a cancellation context that is not the subscriber's");
          if (ch->meddle && ch->s->writer != nullptr) {
            // The callback uses the writer itself.
            int m = ch->meddle;
            ch->meddle = 0;
            vsim::Count("callback-uses-writer");
            if (m == 1) Write(ch->s, 7000);
            if (m == 2) Close(ch->s, Pick(2));
            if (m == 3) Tick();
          }
          if (Pick(2)) Tick();
          then();
          if (!raises) return Py_NewRef(Py_None);
          PyErr_SetString(PyExc_ValueError, msg.c_str());
          return nullptr;
        }));
        bool dead = arolla::Cancelled();
        auto r = Call(ch->reader.get(), "subscribe_once", {ch->executor.get(), cb.get()});
        if (dead) MustBeCancelled(r, "subscribe_once()");
        if (r.ok()) return true;
        // Only a cancellation keeps it from subscribing.
        --w->subscribed;
        if (raises) --w->raised[msg];
        CheckExc(*ch->truth, *ch->c, r.exc.get(), 0, vsim::kNoDeadline, false, "subscribe_once()");
        ch->over = true;
        return false;
      };
      bool chain = kind == 3 && !inline_tasks;
      PyThread(ThreadName(chain ? "chain" : "poll", i), [w, si, c, enter, ch, read, subscribe, chain] {
        std::optional<CancellationContext::ScopeGuard> guard;
        enter(c, guard);
        ch->s = w->streams[si];
        ch->truth = ch->s->truth;
        ch->c = c;
        ch->executor = w->executor;
        auto reader = Call(ch->s->stream.get(), "make_reader");
        if (!reader.ok()) Violation("wrong-exception", "make_reader() raised %s", Repr(reader.exc.get()).c_str());
        ch->reader = reader.value;
        if (chain) {
          auto step = std::make_shared<std::function<void()>>();
          // The callback reads and subscribes again.
          *step = [ch, read, subscribe, weak = std::weak_ptr<std::function<void()>>(step)] {
            auto self = weak.lock();
            read(true);
            if (ch->over) {
              ch->reader.reset();
              ch->executor.reset();
              ch->s.reset();
            } else {
              subscribe([self] { (*self)(); });
            }
          };
          if (!subscribe([step] { (*step)(); })) ch->reader.reset();
          return;
        }
        while (!ch->over) {
          Tick();
          size_t before = ch->got.size();
          read(false);
          if (ch->over) break;
          if (ch->got.size() > before && Pick(2)) continue;
          auto done = std::make_shared<char>(0);
          auto flag = std::make_shared<bool>(false);
          bool ok = subscribe([done, flag, read, ch] {
            if (Pick(2) && !ch->over) read(true);
            vsim::NoPreempt np;
            *flag = true;
            vsim::Wake(done.get());
          });
          if (!ok) break;
          {
            ReleasePyGIL g;
            vsim::NoPreempt np;
            while (!*flag) vsim::Block(done.get(), "a callback");
          }
        }
        ch->reader.reset();
        ch->executor.reset();
        ch->s.reset();
      });
    }
    w->readers.push_back(c);
    cancel_later(c, false);
  }

  // Tasks.
  if (Pick(2)) {
    CtxPtr c = make_ctx(9);
    PyThread("scheduler", [w, c, enter] {
      std::optional<CancellationContext::ScopeGuard> guard;
      enter(c, guard);
      int n = 1 + Pick(4);
      for (int i = 0; i < n; ++i) {
        Tick();
        auto calls = std::make_shared<int>(0);
        bool raises = Pick(4) == 3;
        std::string msg = "task " + std::to_string(i);
        auto fn = PyObjectPtr::Own(Function([w, c, calls, raises, msg]() -> PyObject* {
          if (++*calls > 1) Violation("extra-callback", "a task ran twice");
          if (CurrentExecutorScopeGuard::current_executor() != w->raw_executor) Violation("wrong-executor", "a task does not run on its executor");
          ++w->ran;
          if (c->ctx && arolla::CurrentCancellationContext() != c->ctx) Violation("wrong-context", "a task does not run under the scheduling thread's cancellation context");
          if (!c->ctx && !c->signals && arolla::CurrentCancellationContext() != nullptr) Violation("wrong-context", "a task runs under a cancellation context of its own");
          if (Pick(2)) Tick();
          if (!raises) return Py_NewRef(Py_None);
          PyErr_SetString(PyExc_ValueError, msg.c_str());
          return nullptr;
        }));
        ++w->scheduled;
        if (raises) ++w->raised[msg];
        bool dead = Dead(*c);
        auto r = Call(w->executor.get(), "schedule", {fn.get()});
        if (dead) MustBeCancelled(r, "schedule()");
        if (!r.ok()) {
          --w->scheduled;
          if (raises) --w->raised[msg];
          CheckExc(Truth(), *c, r.exc.get(), 0, vsim::kNoDeadline, false, "schedule()");
        }
      }
    });
    cancel_later(c, false);
  }
  // Another thread of the program, that keeps the GIL busy.
  if (Pick(3) == 0) {
    PyThread("busy", [] {
      for (int n = Pick(6); n > 0; --n) Tick();
    });
  }
  if (stalls) {
    // Only the stalled writers, and who waits for them, are left.
    vsim::Settle();
    vsim::NoPreempt np;
    for (auto& c : w->readers) {
      if (!c->in_call) continue;
      if (c->ctx && c->cancel_done) Violation("stuck-call", "a call still waits after it was cancelled");
      if (c->signals && c->interrupted == c->calls) Violation("stuck-call", "a call still waits after Ctrl-C");
      if (c->timed) Violation("stuck-call", "a call still waits after its timeout");
    }
    w->go = true;
    vsim::Wake(&w->go);
  }
  // The program drops its own references at some point.
  bool early = Pick(2);
  if (!early) vsim::Quiesce();
  {
    AcquirePyGIL gil;
    auto drop = w;
    // The threads that have not started yet need them.
    if (!early) {
      drop->executor.reset();
      drop->streams.clear();
    }
  }
  vsim::Quiesce();
  if (early) {
    AcquirePyGIL gil;
    w->executor.reset();
    w->streams.clear();
  }
  vsim::Quiesce();
  if (w->notified != w->subscribed) Violation("lost-callback", "%d of %d callbacks were called", w->notified, w->subscribed);
  if (w->ran != w->scheduled) Violation("lost-task", "%d of %d tasks ran", w->ran, w->scheduled);
  for (auto it = w->raised.begin(); it != w->raised.end();) it = it->second ? std::next(it) : w->raised.erase(it);
  if (w->raised != Unraisable()) Violation("exception-lost", "%zu exceptions of callbacks, %zu reported", w->raised.size(), Unraisable().size());
  if (vsim::Counter(kLivePy, 0)) Violation("leak", "%ld Python objects are still alive at the end", (long)vsim::Counter(kLivePy, 0));
  w.reset();
  Finish(ex);
}
vsim::Scenario s("pystream", PyStreams);

}  // namespace
}  // namespace sim
