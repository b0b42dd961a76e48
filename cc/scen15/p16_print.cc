// kd.print from threads of Python and others, with a sys.stdout that lets other
// threads run, raises or evaluates, and no memory now and then.
#include <map>
#include <set>

#include "arolla/qexpr/operators.h"
#include "arolla/qtype/tuple_qtype.h"
#include "koladata/internal/op_utils/print.h"
#include "koladata/operators/print.h"
#include "py/koladata/base/init.cc"
#include "world15.h"

namespace world15 {
namespace {
using arolla::QTypePtr;
using arolla::Text;
using arolla::TypedSlot;

struct Printed {
  std::string text;
  std::string other;      // what it may be printed as instead
  bool may_drop = false;  // memory may run out
  int thread;
  int64_t begin, end = 0;
  int sinks_before;       // callbacks set for sure when it began
};
struct Out {
  std::string text;
  int sink;
};
struct World {
  std::vector<std::unique_ptr<Printed>> printed;
  std::vector<Out> out;
  int64_t clock = 0;
  int inside = 0, sinks = 0, set = 0;
  bool oom = false, raising = false, nested = false;
  int failed_allocations = 0;
};
World* g = nullptr;

// One write to where messages go.
bool Write(const std::string& text, int sink) {
  {
    vsim::NoPreempt np;
    if (g->inside++) Violation("mixed", "two messages are written at the same time");
  }
  bool raises = g->raising && Chance(1, 4);
  vsim::Pause();
  {
    vsim::NoPreempt np;
    g->out.push_back({text, sink});
    --g->inside;
  }
  return !raises;
}
bool WriteStdout(const std::string& text) {
  Tick();
  bool ok = Write(text, 0);
  if (g->nested && Chance(1, 3)) {
    // It evaluates something.
    ReleasePyGIL release;
    vsim::Pause();
  }
  Tick();
  if (!ok) {
    PyErr_SetString(PyExc_RuntimeError, "stdout is broken");
    PyErr_Clear();
    vsim::Count("stdout-raises");
  }
  return ok;
}
bool NoMemory() {
  if (!g->oom || !Chance(1, 4)) return false;
  vsim::Count("no-memory");
  ++g->failed_allocations;
  return true;
}

Printed* Begin(int thread, std::string text, std::string other, bool may_drop) {
  vsim::NoPreempt np;
  g->printed.push_back(std::make_unique<Printed>(Printed{std::move(text), std::move(other), may_drop, thread, ++g->clock, 0, g->set}));
  return g->printed.back().get();
}
void End(Printed* p) {
  vsim::NoPreempt np;
  p->end = ++g->clock;
}
std::string Unique(int thread) {
  static const char* kParts[] = {"", "x", "\xc3\xa9", "\xe2\x82\xac", "\n", "%s", "\xf0\x9f\x98\x80"};
  vsim::NoPreempt np;
  return "<" + std::to_string(thread) + "." + std::to_string(++g->clock) + kParts[Pick(7)] + ">";
}

DataSlice TextItem(std::string s) { return *DataSlice::Create(DataItem(Text(s)), DataItem(koladata::schema::kString)); }

// kd.core.with_print(x, (args...), sep, end)
void WithPrint(int thread) {
  std::vector<DataSlice> frame = {*DataSlice::Create(DataItem(int64_t(thread * 100 + Pick(50))), DataItem(koladata::schema::kInt64))};
  int64_t x = frame[0].item().value<int64_t>();
  int n = Pick(4);
  std::vector<TypedSlot> subs;
  std::vector<QTypePtr> types;
  std::string sep = Pick(2) ? " " : Pick(2) ? "" : ", ", end = Unique(thread) + (Pick(2) ? "\n" : ""), text;
  for (int i = 0; i < n; ++i) {
    std::string t = Unique(thread);
    bool num = Chance(1, 5);
    int64_t v = Pick(1000);
    text += (i ? sep : "") + (num ? std::to_string(v) : t);
    subs.push_back(TypedSlot(arolla::GetQType<DataSlice>(), frame.size()));
    types.push_back(arolla::GetQType<DataSlice>());
    frame.push_back(num ? *DataSlice::Create(DataItem(v), DataItem(koladata::schema::kInt64)) : TextItem(t));
  }
  text += end;
  size_t sep_at = frame.size();
  frame.push_back(TextItem(sep));
  frame.push_back(TextItem(end));
  bool bad = Chance(1, 10);
  if (bad) {
    // One of them cannot be shown.
    size_t at = 1 + Pick(frame.size() - 1);
    if (at == sep_at && n < 2) at = sep_at + 1;
    frame[at] = DataSlice();
  }
  frame.push_back(DataSlice());
  QTypePtr tuple = arolla::MakeTupleQType(types), ds = arolla::GetQType<DataSlice>(), i64 = arolla::GetQType<int64_t>();
  koladata::ops::WithPrintOperatorFamily family;
  const arolla::OperatorFamily& base = family;
  auto op = base.GetOperator({ds, tuple, ds, ds, i64}, ds);
  if (!op.ok()) Violation("wrong-error", "with_print failed with %s", op.status().ToString().c_str());
  TypedSlot out(ds, frame.size() - 1);
  auto bound = (*op)->Bind({TypedSlot(ds, 0), TypedSlot(tuple, 0, subs), TypedSlot(ds, sep_at), TypedSlot(ds, sep_at + 1), TypedSlot(i64, 0)}, out);
  if (!bound.ok()) Violation("wrong-error", "with_print failed with %s", bound.status().ToString().c_str());
  arolla::EvaluationContext ctx;
  Printed* p = bad ? nullptr : Begin(thread, text, text, g->oom);
  absl::Status s = (*bound)->Run(&ctx, arolla::FramePtr(&frame));
  if (p) End(p);
  if (bad) {
    if (s.ok()) Violation("wrong-error", "with_print of something that cannot be shown succeeded");
    return;
  }
  if (!s.ok()) Violation("wrong-error", "with_print failed with %s", s.ToString().c_str());
  if (!frame.back().item().holds_value<int64_t>() || frame.back().item().value<int64_t>() != x) Violation("wrong-result", "with_print returns something else than its argument");
}
// Text that is not UTF-8 (a long expression is cut anywhere).
void PrintRaw(int thread) {
  std::string t = Unique(thread), fixed = t;
  bool broken = Pick(2);
  if (broken) {
    t += "\xe2\x82";
    fixed += "\xef\xbf\xbd\xef\xbf\xbd";
  }
  Printed* p = Begin(thread, t, fixed, g->oom);
  koladata::internal::GetSharedPrinter().Print(t);
  End(p);
}
void SetSink() {
  int sink;
  {
    vsim::NoPreempt np;
    sink = ++g->sinks;
  }
  auto probe = std::make_shared<int>(sink);
  koladata::internal::GetSharedPrinter().SetPrintCallback([probe](absl::string_view m) { Write(std::string(m), *probe); });
  vsim::NoPreempt np;
  g->set = sink;
}

void Check() {
  std::map<std::string, int> at;
  std::vector<const Printed*> by_out(g->out.size());
  std::set<const Printed*> seen;
  for (size_t i = 0; i < g->out.size(); ++i) {
    for (auto& p : g->printed) {
      bool same = g->out[i].text == p->text || g->out[i].text == p->other;
      if (!same || seen.count(p.get())) continue;
      by_out[i] = p.get();
      seen.insert(p.get());
      break;
    }
    if (!by_out[i]) Violation("wrong-message", "'%s' was written; nobody printed it, or not so often", g->out[i].text.c_str());
    if (g->out[i].sink < by_out[i]->sinks_before) Violation("wrong-sink", "a message went to a callback that had been replaced before");
  }
  int lost = 0;
  for (auto& p : g->printed) {
    if (seen.count(p.get())) continue;
    if (!p->may_drop) Violation("lost-message", "'%s' was never written", p->text.c_str());
    ++lost;
  }
  if (lost > g->failed_allocations) Violation("lost-message", "%d messages were lost, %d allocations failed", lost, g->failed_allocations);
  // One that ended before another began comes first.
  for (size_t i = 0; i < by_out.size(); ++i) {
    for (size_t j = i + 1; j < by_out.size(); ++j) {
      if (by_out[j]->end < by_out[i]->begin && by_out[i]->text != by_out[j]->text) Violation("wrong-order", "'%s' was written before '%s'", by_out[i]->text.c_str(), by_out[j]->text.c_str());
    }
  }
}

void Run() {
  World w;
  g = &w;
  w.oom = Chance(1, 4);
  w.raising = Chance(1, 3);
  w.nested = Chance(1, 3);
  g_stdout = WriteStdout;
  g_no_memory = NoMemory;
  bool sinks = Chance(1, 4);
  {
    AcquirePyGIL gil;
    PyObject* m = koladata::python::PyInit_init();
    if (!m) Violation("wrong-error", "the module was not initialised");
    Py_DECREF(m);
  }
  int threads = 2 + Pick(3);
  auto step = [sinks](int t) {
    if (sinks && t == 0 && Chance(1, 3)) SetSink();
    else if (Chance(1, 3)) PrintRaw(t);
    else WithPrint(t);
  };
  for (int t = 0; t < threads; ++t) {
    int n = 1 + Pick(3);
    if (Pick(3)) {
      PyThread("python", [=] {
        for (int i = 0; i < n; ++i) {
          Tick();
          {
            ReleasePyGIL release;
            step(t);
          }
          PyObjectPtr exc = PyObjectPtr::Own(PyErr_GetRaisedException());
          if (exc != nullptr) Violation("wrong-exception", "printing left %s", Repr(exc.get()).c_str());
        }
      });
    } else {
      vsim::Spawn([=] { for (int i = 0; i < n; ++i) { vsim::Pause(); step(t); } }, "native");
    }
  }
  vsim::Quiesce();
  {
    vsim::NoPreempt np;
    Check();
  }
  koladata::internal::GetSharedPrinter().SetPrintCallback([](absl::string_view) {});
  CheckPyLeaks();
  g = nullptr;
}
vsim::Scenario s_print("pyprint", Run);
}  // namespace
}  // namespace world15
