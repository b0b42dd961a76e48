// Shared parts of the scenarios: value types, executors, sources, readers.
#ifndef SCEN_COMMON_H_
#define SCEN_COMMON_H_
#include <cstdint>
#include <deque>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/util/cancellation.h"
#include "koladata/data_slice.h"
#include "koladata/data_slice_qtype.h"
#include "koladata/functor/parallel/asio_executor.h"
#include "koladata/functor/parallel/default_asio_executor.h"
#include "koladata/functor/parallel/derived_executor.h"
#include "koladata/functor/parallel/eager_executor.h"
#include "koladata/functor/parallel/executor.h"
#include "koladata/functor/parallel/future.h"
#include "koladata/functor/parallel/future_qtype.h"
#include "koladata/functor/parallel/stream.h"
#include "koladata/functor/parallel/stream_qtype.h"
#include "vsim.h"

namespace sim {

using arolla::CancellationContext;
using arolla::CancellationContextPtr;
using arolla::GetQType;
using arolla::QTypePtr;
using arolla::TypedRef;
using arolla::TypedValue;
using namespace koladata::functor::parallel;  // NOLINT
using vsim::Chance;
using vsim::Pause;
using vsim::Pick;

enum Ctr { kLiveToks, kLiveProbes };

[[noreturn]] void Violation(const char* kind, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));

// A value with a heap cell: reading a value that was destroyed or overwritten
// is seen by the memory checks. `Pad` sets how many fit a stream's chunk.
template <int Pad>
class TokT {
 public:
  TokT() = default;
  explicit TokT(int64_t v) : p_(new int64_t(v)) { vsim::Counter(kLiveToks, 1); }
  TokT(const TokT& o) {
    if (o.p_) {
      p_ = new int64_t(*o.p_);
      vsim::Counter(kLiveToks, 1);
    }
  }
  TokT& operator=(const TokT& o) {
    if (this == &o) return *this;
    int64_t* n = nullptr;
    if (o.p_) {
      n = new int64_t(*o.p_);
      vsim::Counter(kLiveToks, 1);
    }
    Drop();
    p_ = n;
    return *this;
  }
  ~TokT() { Drop(); }
  int64_t get() const {
    if (!p_) Violation("empty-value", "a value that was never written is visible");
    return *p_;
  }

 private:
  void Drop() {
    if (p_) {
      delete p_;
      vsim::Counter(kLiveToks, -1);
    }
    p_ = nullptr;
  }
  int64_t* p_ = nullptr;
  char pad_[Pad];
};
using Tok = TokT<160>;   // three per chunk
using Tok1 = TokT<600>;  // one per chunk

// Counts the live copies of the closures and contexts it is a member of.
class Probe {
 public:
  Probe() { vsim::Counter(kLiveProbes, 1); }
  Probe(const Probe&) { vsim::Counter(kLiveProbes, 1); }
  Probe(Probe&&) noexcept { vsim::Counter(kLiveProbes, 1); }
  Probe& operator=(const Probe&) = default;
  ~Probe() { vsim::Counter(kLiveProbes, -1); }
};

TypedValue MakeTok(int64_t v);
int64_t GetTok(TypedRef r);
int64_t GetTok(const TypedValue& v);

// ---- executors --------------------------------------------------------------

// A thread pool under the simulator's control. It runs the tasks in the order
// of their submission or in an arbitrary order, and can be told to discard all
// the tasks after some point (the interface allows it during a shutdown).
class SimPool final : public Executor {
 public:
  struct Core;
  SimPool(int threads, bool fifo, int discard_after);
  ~SimPool() noexcept final;
  std::string Repr() const noexcept final { return "sim_pool"; }
  bool discarded() const;

 private:
  void DoSchedule(TaskFn task) noexcept final;
  std::shared_ptr<Core> core_;
};

struct Exec {
  ExecutorPtr ptr;
  std::shared_ptr<SimPool> pool;  // when it is, or is derived from, a SimPool
  const char* name = "";
  bool inline_tasks = false;
  bool discards = false;
};
// `discard`: may make an executor that discards tasks.
Exec MakeExec(bool discard = false);
bool Discarded(const Exec& e);

// ---- statuses ---------------------------------------------------------------
struct End {
  bool closed = false;
  int code = 0;
  std::string msg;
  bool ok() const { return closed && code == 0; }
  bool operator==(const End& o) const {
    return closed == o.closed && code == o.code && msg == o.msg;
  }
};
End ToEnd(const absl::Status& s);
End OkEnd();
std::string Str(const End& e);
std::string Str(const std::vector<int64_t>& v);
// An arbitrary error, different for different `salt`.
absl::Status SomeError(int64_t salt);
bool IsOrphaned(const End& e);

// ---- sources ----------------------------------------------------------------
struct Source {
  std::vector<int64_t> vals;
  End end;
  StreamPtr stream;
};
struct SourceOptions {
  int max_items = 6;
  bool errors = true;
  int64_t base = 0;     // values are base+1, base+2, ...
  bool single = false;  // mostly exactly one item
  std::vector<TypedValue> items;  // when set, the items to write
  QTypePtr qtype = nullptr;
};
// Creates a stream and, maybe, a thread that fills it.
Source MakeSource(const SourceOptions& o);

// ---- readers ----------------------------------------------------------------
struct Read {
  std::vector<int64_t> vals;
  End end;
  bool started = false;
  std::function<int64_t(TypedRef)> get = [](TypedRef r) { return GetTok(r); };
  std::function<void(TypedRef)> on_item;
};
using ReadPtr = std::shared_ptr<Read>;
// Reads until the end (or `stop_after` items) on the calling thread; checks
// that a notification implies that something can be read.
void ReadAll(StreamReaderPtr reader, Read& out, int stop_after = -1);
// Spawns a thread that reads the stream.
ReadPtr SpawnReader(StreamPtr stream, const char* name, int stop_after = -1);

// Reads a stream that must already be closed, without waiting.
Read ReadClosed(const StreamPtr& s, std::function<int64_t(TypedRef)> get = nullptr);

// Checks that nothing is left when a run is over.
void CheckNoLeaks();

bool IsPrefix(const std::vector<int64_t>& a, const std::vector<int64_t>& b);

const char* ThreadName(const char* stem, int i);

}  // namespace sim

namespace arolla {
AROLLA_DECLARE_SIMPLE_QTYPE(TOK, sim::Tok);
AROLLA_DECLARE_SIMPLE_QTYPE(TOK1, sim::Tok1);
}  // namespace arolla
#endif
