// Streams: any number of readers, writers (TryWrite), closers and drops.
#include <algorithm>
#include <map>

#include "common.h"

namespace sim {
namespace {

int64_t Tick() { return vsim::Counter(15, 1); }

struct WriteOp {
  int64_t val, begin, end;
  bool ok;
  int thread;
};
struct CloseOp {
  End status;
  int64_t begin, end;
};
struct World {
  std::vector<WriteOp> writes;
  std::vector<CloseOp> closes;
  std::vector<std::pair<int64_t, bool>> orphaned;  // (time of the answer, answer)
  int64_t writer_gone = -1;
};

template <typename T>
TypedValue Make(int64_t v) {
  return TypedValue::FromValue(T(v));
}

struct ReaderLog {
  std::vector<int64_t> vals;
  std::vector<TypedRef> refs;
  End end;
  bool partial = false;
};

template <typename T>
void Run() {
  auto w = std::make_shared<World>();
  auto [stream, writer0] = MakeStream(GetQType<T>(), Pick(3) == 1 ? 1 + Pick(8) : 0);
  std::shared_ptr<StreamWriter> writer = std::move(writer0);
  if (writer->Orphaned()) Violation("orphaned", "a new stream's writer says it is orphaned");
  const int mode = Pick(3);  // 0: one writer, Write/Close; 1, 2: several with Try*
  const int nwriters = mode == 0 ? 1 : 1 + Pick(3);
  const int nclosers = mode == 0 ? 0 : Pick(3);
  const int nreaders = 1 + Pick(4);
  std::vector<std::shared_ptr<ReaderLog>> logs;

  auto reader_thread = [w, nclosers](StreamPtr s, std::shared_ptr<ReaderLog> log, int style, int stop) {
    Pause();
    auto reader = s->MakeReader();
    if (Pick(2) == 0) s.reset();
    bool notified = false;
    for (;;) {
      int64_t t0 = Tick();
      auto r = reader->TryRead();
      if (auto* item = r.item()) {
        int64_t v = GetTok(*item);
        vsim::NoPreempt np;
        log->vals.push_back(v);
        log->refs.push_back(*item);
        notified = false;
        if (stop >= 0 && (int)log->vals.size() >= stop) {
          log->partial = true;
          break;
        }
        continue;
      }
      if (auto* st = r.close_status()) {
        vsim::NoPreempt np;
        log->end = ToEnd(*st);
        break;
      }
      {
        vsim::NoPreempt np;
        if (notified) Violation("empty-after-notify", "TryRead returned nothing after the subscribed callback was invoked");
        size_t done = 0;
        for (auto& op : w->writes) done += op.ok && op.end < t0;
        if (log->vals.size() < done) {
          Violation("stale-read", "TryRead returned nothing after %zu of %zu completed writes", log->vals.size(), done);
        }
        // With several closers one may return while another's is in progress.
        for (auto& op : w->closes) {
          if (nclosers <= 1 && op.end < t0) Violation("stale-read", "TryRead returned nothing although the stream had been closed");
        }
      }
      if (style == 1 && Chance(1, 4)) {
        // Subscribe and leave.
        vsim::Count("reader-left-subscribed");
        reader->SubscribeOnce([p = Probe()] {});
        log->partial = true;
        break;
      }
      struct Sig { int n = 0; };
      auto sig = std::make_shared<Sig>();
      auto cb = [sig] {
        vsim::NoPreempt np;
        if (++sig->n > 1) Violation("notified-twice", "a callback was invoked twice");
        vsim::Release(sig.get());
        vsim::Wake(sig.get());
      };
      reader->SubscribeOnce(std::move(cb));
      {
        vsim::NoPreempt np;
        while (!sig->n) vsim::Block(sig.get(), "a stream notification");
        vsim::Acquire(sig.get());
      }
      notified = true;
    }
    // References stay valid while the reader is alive.
    Pause();
    for (size_t i = 0; i < log->refs.size(); ++i) {
      if (GetTok(log->refs[i]) != log->vals[i]) {
        Violation("ref-changed", "item %zu changed from %ld to %ld while the reader was alive", i, (long)log->vals[i], (long)GetTok(log->refs[i]));
      }
    }
    if (!log->partial) {
      for (int i = 0; i < 2; ++i) {  // the end is final
        auto r = reader->TryRead();
        if (!r.close_status() || !(ToEnd(*r.close_status()) == log->end)) {
          Violation("end-changed", "reading past the end gives another answer");
        }
        bool called = false;
        reader->SubscribeOnce([&called] { called = true; });
        if (!called) Violation("lost-notification", "subscribing at the end of a stream does not notify");
      }
    }
    log->refs.clear();
  };

  bool full_reader = false;
  for (int i = 0; i < nreaders; ++i) {
    auto log = std::make_shared<ReaderLog>();
    logs.push_back(log);
    int stop = i > 0 && Chance(1, 3) ? Pick(4) : -1;
    if (stop == 0) stop = -1;
    int style = i > 0 ? Pick(2) : 0;
    if (i == 0) full_reader = true;
    vsim::Spawn([=, s = stream]() mutable { reader_thread(std::move(s), log, style, stop); }, ThreadName("reader", i));
  }

  for (int i = 0; i < nwriters; ++i) {
    const int n = Pick(9);
    vsim::Spawn(
        [=]() mutable {
          bool refused = false;
          for (int k = 0; k < n; ++k) {
            Pause();
            int64_t v = i * 100 + k + 1;
            auto value = Make<T>(v);
            int64_t t0 = Tick();
            bool ok = true;
            if (mode == 0) {
              writer->Write(value.AsRef());
            } else {
              bool gone = Pick(2) && writer->Orphaned();
              ok = writer->TryWrite(value.AsRef());
              if (gone && ok) Violation("write-after-orphaned", "TryWrite succeeded after Orphaned() was true");
            }
            vsim::NoPreempt np;
            w->writes.push_back(WriteOp{v, t0, Tick(), ok, i});
            if (refused && ok) Violation("write-after-refusal", "TryWrite succeeded after it had been refused");
            refused = !ok;
          }
          if (mode == 0) {
            Pause();
            int how = Pick(3);
            CloseOp op;
            op.begin = Tick();
            if (how == 0) {
              std::move(*writer).Close();
              op.status = OkEnd();
            } else if (how == 1) {
              std::move(*writer).Close(SomeError(5));
              op.status = ToEnd(SomeError(5));
            } else {
              vsim::Count("writer-dropped");
              writer.reset();
              op.status = ToEnd(absl::CancelledError("orphaned"));
            }
            // The last owner of the writer destroys it.
            op.end = how == 2 ? INT64_MAX : Tick();
            if (writer && !writer->Orphaned()) Violation("orphaned", "Orphaned() is false after Close()");
            vsim::NoPreempt np;
            w->closes.push_back(op);
          } else if (Pick(3) == 0) {
            int64_t t = Tick();
            bool o = writer->Orphaned();
            vsim::NoPreempt np;
            w->orphaned.push_back({t, o});
          }
          writer.reset();
        },
        ThreadName("writer", i));
  }
  for (int i = 0; i < nclosers; ++i) {
    vsim::Spawn(
        [=]() mutable {
          Pause();
          Pause();
          CloseOp op;
          absl::Status st = i == 0 && Pick(2) == 0 ? absl::OkStatus() : SomeError(i + 1);
          op.status = ToEnd(st);
          op.begin = Tick();
          writer->TryClose(std::move(st));
          op.end = Tick();
          if (!writer->Orphaned()) Violation("orphaned", "Orphaned() is false after TryClose()");
          {
            vsim::NoPreempt np;
            w->closes.push_back(op);
          }
          writer.reset();
        },
        ThreadName("closer", i));
  }
  std::weak_ptr<StreamWriter> weak_writer = writer;
  writer.reset();
  stream.reset();
  vsim::Quiesce();
  if (!weak_writer.expired()) Violation("harness", "the writer is still alive");

  // ---- the history ----
  auto& full = *logs[0];
  if (!full_reader || !full.end.closed) Violation("not-closed", "a reader did not reach the end");
  for (auto& l : logs) {
    if (l->partial) {
      if (!IsPrefix(l->vals, full.vals)) {
        Violation("readers-disagree", "one reader saw %s, another %s", Str(l->vals).c_str(), Str(full.vals).c_str());
      }
    } else if (l->vals != full.vals || !(l->end == full.end)) {
      Violation("readers-disagree", "one reader saw %s %s, another %s %s", Str(l->vals).c_str(), Str(l->end).c_str(), Str(full.vals).c_str(), Str(full.end).c_str());
    }
  }
  std::map<int64_t, size_t> pos;
  for (size_t i = 0; i < full.vals.size(); ++i) {
    if (!pos.emplace(full.vals[i], i).second) Violation("duplicate", "value %ld was read twice: %s", (long)full.vals[i], Str(full.vals).c_str());
  }
  size_t nok = 0;
  for (auto& op : w->writes) {
    nok += op.ok;
    if (op.ok != (pos.count(op.val) > 0)) {
      Violation(op.ok ? "lost-write" : "ghost-write", "the write of %ld returned %s but the stream is %s", (long)op.val, op.ok ? "true" : "false", Str(full.vals).c_str());
    }
    for (auto& op2 : w->writes) {
      if (op.end < op2.begin && op2.ok) {
        if (!op.ok) Violation("write-after-refusal", "the write of %ld succeeded after one had been refused", (long)op2.val);
        if (pos[op.val] > pos[op2.val]) Violation("reordered", "%ld was written before %ld: %s", (long)op.val, (long)op2.val, Str(full.vals).c_str());
      }
    }
    for (auto& c : w->closes) {
      if (op.ok && w->closes.size() == 1 && c.end < op.begin) Violation("write-after-close", "the write of %ld succeeded after the stream had been closed", (long)op.val);
      if (!op.ok && w->closes.size() == 1 && op.end < c.begin) Violation("refused-write", "the write of %ld was refused before the stream was closed", (long)op.val);
    }
    if (!op.ok && w->closes.empty()) Violation("refused-write", "the write of %ld was refused although nobody closed the stream", (long)op.val);
  }
  if (nok != full.vals.size()) Violation("ghost-write", "%zu writes succeeded, the stream is %s", nok, Str(full.vals).c_str());
  if (w->closes.empty()) {
    if (!IsOrphaned(full.end)) Violation("wrong-end", "the writer was destroyed, the stream ended with %s", Str(full.end).c_str());
  } else {
    bool found = false;
    for (auto& c : w->closes) {
      if (!(c.status == full.end)) continue;
      bool late = false;
      for (auto& d : w->closes) late |= d.end < c.begin;
      found |= !late;
    }
    if (!found) Violation("wrong-end", "the stream ended with %s, which is not the status of the first close", Str(full.end).c_str());
  }
  for (auto& [t, o] : w->orphaned) {
    bool must = false;
    for (auto& c : w->closes) must |= c.end < t;
    if (must && !o) Violation("orphaned", "Orphaned() is false after the stream was closed");
    if (!must && o && w->closes.empty()) Violation("orphaned", "Orphaned() is true while a reader waits");
  }
  logs.clear();
  CheckNoLeaks();
}

void P01() {
  if (Pick(3) == 1) {
    Run<Tok1>();
  } else {
    Run<Tok>();
  }
}
vsim::Scenario s("stream", P01);

// The writer outlives the readers, and readers are moved into callbacks.
struct Reactive {
  std::vector<int64_t> vals;
  End end;
};
void Step(std::shared_ptr<Reactive> log, StreamReaderPtr reader, int stop) {
  for (;;) {
    auto r = reader->TryRead();
    if (auto* item = r.item()) {
      log->vals.push_back(GetTok(*item));
      if (stop >= 0 && (int)log->vals.size() >= stop) return;
    } else if (auto* st = r.close_status()) {
      log->end = ToEnd(*st);
      return;
    } else {
      break;
    }
  }
  auto* p = reader.get();
  p->SubscribeOnce([log = std::move(log), reader = std::move(reader), stop]() mutable {
    Step(std::move(log), std::move(reader), stop);
  });
}

void P01Callbacks() {
  auto [stream, writer0] = MakeStream(GetQType<Tok>(), Pick(2));
  std::shared_ptr<StreamWriter> writer = std::move(writer0);
  int n = 1 + Pick(8);
  int nread = 1 + Pick(3);
  std::vector<std::shared_ptr<Reactive>> logs;
  std::vector<int> stops;
  for (int i = 0; i < nread; ++i) {
    logs.push_back(std::make_shared<Reactive>());
    int stop = Chance(1, 3) ? 1 + Pick(3) : -1;
    stops.push_back(stop);
    if (Pick(2) == 0) {
      vsim::Spawn([l = logs.back(), s = stream, stop]() mutable {
        Pause();
        auto r = s->MakeReader();
        s.reset();
        Step(l, std::move(r), stop);
      }, ThreadName("reader", i));
    } else {
      Step(logs.back(), stream->MakeReader(), stop);
    }
  }
  absl::Status st = Pick(2) == 0 ? absl::OkStatus() : SomeError(3);
  vsim::Spawn([w = writer, n, st]() mutable {
    for (int i = 0; i < n; ++i) {
      Pause();
      auto v = MakeTok(i + 1);
      if (!w->TryWrite(v.AsRef())) break;
    }
    Pause();
    w->TryClose(std::move(st));
    w.reset();
  }, "writer");
  writer.reset();
  std::weak_ptr<Stream> weak = stream;
  stream.reset();
  vsim::Quiesce();
  std::vector<int64_t> want;
  for (int i = 0; i < n; ++i) want.push_back(i + 1);
  for (int i = 0; i < nread; ++i) {
    auto& l = *logs[i];
    if (stops[i] >= 0 && stops[i] <= n) {
      if (l.vals != std::vector<int64_t>(want.begin(), want.begin() + stops[i])) {
        Violation("wrong-items", "a reader saw %s", Str(l.vals).c_str());
      }
    } else if (l.vals != want || !(l.end == ToEnd(st))) {
      Violation("wrong-items", "a reader saw %s %s, written %s %s", Str(l.vals).c_str(), Str(l.end).c_str(), Str(want).c_str(), Str(ToEnd(st)).c_str());
    }
  }
  if (!weak.expired()) Violation("leak", "the stream is alive after its writer and readers are gone");
  CheckNoLeaks();
}
vsim::Scenario s2("stream_callbacks", P01Callbacks);

}  // namespace
}  // namespace sim
