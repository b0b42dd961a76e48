// Implementation of the non-concurrent parts of the stand-ins (not
// instrumented) and of the simulated boost::asio::thread_pool.
#include <cstdint>
#include <cstring>
#include <deque>
#include <map>
#include <optional>
#include <string>
#include <tuple>
#include <vector>

#include "arolla/derived_qtype/labeled_qtype.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/qtype/unspecified_qtype.h"
#include "boost/asio/thread_pool.hpp"
#include "koladata/data_slice.h"
#include "koladata/operators/slices.h"
#include "vsim.h"

namespace arolla {

Fingerprint RandomFingerprint() {
  static uint64_t n = 100;
  return Fingerprint{++n};
}

size_t FrameLayout::AllocSize() const { return t_->ops().size; }
size_t FrameLayout::AllocAlignment() const { return t_->ops().align; }
void FrameLayout::InitializeAlignedAllocN(void* p, size_t n) const {
  for (size_t i = 0; i < n; ++i) t_->UnsafeInit((char*)p + i * t_->ops().size);
}
void FrameLayout::DestroyAllocN(void* p, size_t n) const {
  for (size_t i = 0; i < n; ++i) t_->UnsafeDestroy((char*)p + i * t_->ops().size);
}
void QType::UnsafeInit(void* p) const {
  if (tuple_) {
    for (auto& f : fields_) f.type->UnsafeInit((char*)p + f.offset);
  } else if (ops_.init) {
    ops_.init(p);
  }
}
void QType::UnsafeDestroy(void* p) const {
  if (tuple_) {
    for (auto& f : fields_) f.type->UnsafeDestroy((char*)p + f.offset);
  } else if (ops_.destroy) {
    ops_.destroy(p);
  }
}
void QType::UnsafeCopy(const void* s, void* d) const {
  if (tuple_) {
    for (auto& f : fields_) {
      f.type->UnsafeCopy((const char*)s + f.offset, (char*)d + f.offset);
    }
  } else if (ops_.copy) {
    ops_.copy(s, d);
  }
}

#define SIMPLE(T, NAME)                                             \
  QTypePtr QTypeTraits<T>::type() {                                 \
    static const auto* r = new SimpleQType(meta::type<T>(), NAME);  \
    return r;                                                       \
  }
SIMPLE(int64_t, "INT64")
SIMPLE(int32_t, "INT32")
SIMPLE(Unit, "UNIT")
SIMPLE(Text, "TEXT")

namespace {
struct Nothing {};
struct UnspecifiedTag {};
struct TupleT {};
struct Unspec {
  QTypePtr t = new SimpleQType(meta::type<UnspecifiedTag>(), "UNSPECIFIED");
};

struct NamedTuple final : QType, NamedFieldQTypeInterface {
  using QType::QType;
  std::optional<int64_t> GetFieldIndexByName(absl::string_view name) const final { return arolla::GetFieldIndexByName(this, name); }
};
QTypePtr TupleOf(const std::vector<std::pair<std::string, QTypePtr>>& f, bool named) {
  using Key = std::pair<bool, std::vector<std::pair<std::string, QTypePtr>>>;
  static auto* reg = new std::map<Key, QTypePtr>;
  auto& r = (*reg)[Key(named, f)];
  if (r) return r;
  QType::Args a;
  a.name = named ? "namedtuple<" : "tuple<";
  size_t off = 0, align = 1;
  for (auto& [n, t] : f) {
    size_t al = t->ops().align;
    off = (off + al - 1) / al * al;
    a.fields.push_back(QField{n, t, off});
    off += t->ops().size ? t->ops().size : 1;
    align = std::max(align, al);
    if (a.fields.size() > 1) a.name += ",";
    if (named) a.name += n + "=";
    a.name += std::string(t->name());
  }
  a.name += ">";
  a.ops.size = (off + align - 1) / align * align;
  a.ops.align = align;
  a.type = &typeid(TupleT);
  a.named = named;
  a.tuple = true;
  r = named ? new NamedTuple(a) : new QType(a);
  return r;
}
TypedValue FillTuple(QTypePtr t, absl::Span<const TypedRef> fields) {
  static std::vector<char*> dummy;
  void* tmp = ::operator new(t->ops().size ? t->ops().size : 1, std::align_val_t{t->ops().align});
  t->UnsafeInit(tmp);
  for (size_t i = 0; i < fields.size(); ++i) {
    t->type_fields()[i].type->UnsafeCopy(fields[i].GetRawPointer(), (char*)tmp + t->type_fields()[i].offset);
  }
  TypedValue v(TypedRef::UnsafeFromRawPointer(t, tmp));
  t->UnsafeDestroy(tmp);
  ::operator delete(tmp, std::align_val_t{t->ops().align});
  return v;
}
}  // namespace

QTypePtr GetNothingQType() {
  static QTypePtr t = new SimpleQType(meta::type<Nothing>(), "NOTHING");
  return t;
}
QTypePtr GetUnspecifiedQType() {
  static Unspec u;
  return u.t;
}
const TypedValue& GetUnspecifiedQValue() {
  static UnspecifiedTag tag;
  static const TypedValue* v = new TypedValue(TypedRef::UnsafeFromRawPointer(GetUnspecifiedQType(), &tag));
  return *v;
}

QTypePtr MakeTupleQType(absl::Span<const QTypePtr> types) {
  std::vector<std::pair<std::string, QTypePtr>> f;
  for (auto t : types) f.push_back({"", t});
  return TupleOf(f, false);
}
TypedValue MakeTuple(absl::Span<const TypedRef> fields) {
  vsim::NoPreempt np;
  std::vector<QTypePtr> t;
  for (auto& f : fields) t.push_back(f.GetType());
  return FillTuple(MakeTupleQType(t), fields);
}
TypedValue MakeTuple(absl::Span<const TypedValue> fields) {
  std::vector<TypedRef> r;
  for (auto& f : fields) r.push_back(f.AsRef());
  return MakeTuple(r);
}
bool IsTupleQType(QTypePtr t) { return t->is_tuple() && !t->named(); }
absl::StatusOr<TypedValue> MakeNamedTuple(absl::Span<const std::string> names,
                                          absl::Span<const TypedRef> fields) {
  vsim::NoPreempt np;
  std::vector<std::pair<std::string, QTypePtr>> f;
  for (size_t i = 0; i < names.size(); ++i) f.push_back({names[i], fields[i].GetType()});
  return FillTuple(TupleOf(f, true), fields);
}
bool IsNamedTupleQType(QTypePtr t) { return t->named(); }
absl::Span<const std::string> GetFieldNames(QTypePtr t) {
  vsim::NoPreempt np;
  static auto* reg = new std::map<QTypePtr, std::vector<std::string>>;
  auto& v = (*reg)[t];
  if (v.empty() && t->named()) {
    for (auto& f : t->type_fields()) v.push_back(f.name);
  }
  return v;
}
std::optional<int64_t> GetFieldIndexByName(QTypePtr t, absl::string_view name) {
  if (!t->named()) return std::nullopt;
  for (size_t i = 0; i < t->type_fields().size(); ++i) {
    if (t->type_fields()[i].name == name) return i;
  }
  return std::nullopt;
}

QTypePtr GetLabeledQType(QTypePtr base, absl::string_view label) {
  vsim::NoPreempt np;
  static auto* reg = new std::map<std::pair<QTypePtr, std::string>, QTypePtr>;
  auto& r = (*reg)[{base, std::string(label)}];
  if (r) return r;
  QType::Args a;
  a.name = "LABEL[" + std::string(label) + "]";
  a.type = base->type_id();
  a.ops = base->ops();
  a.value_qtype = base->value_qtype();
  a.label = std::string(label);
  a.base = base;
  r = new QType(a);
  return r;
}
absl::string_view GetQTypeLabel(QTypePtr t) { return t->label(); }
QTypePtr DecayDerivedQType(QTypePtr t) { return t->base() ? t->base() : t; }
TypedRef DecayDerivedQValue(TypedRef r) {
  return TypedRef::UnsafeFromRawPointer(DecayDerivedQType(r.GetType()), r.GetRawPointer());
}
TypedRef UnsafeDowncastDerivedQValue(QTypePtr derived, TypedRef r) {
  return TypedRef::UnsafeFromRawPointer(derived, r.GetRawPointer());
}

AROLLA_DEFINE_SIMPLE_QTYPE(DATA_SLICE, koladata::DataSlice);
}  // namespace arolla

namespace koladata::ops {
absl::StatusOr<DataSlice> ConcatOrStack(std::vector<const DataSlice*> args) {
  vsim::NoPreempt np;
  bool stack = args[0]->item().value<bool>();
  int64_t ndim = args[1]->item().value<int64_t>();
  // The operator's own errors are modelled by negative contents.
  std::vector<int64_t> out;
  int64_t rank = args[2]->GetShape().rank();
  for (size_t i = 2; i < args.size(); ++i) {
    if (args[i]->GetShape().rank() != rank) return absl::InvalidArgumentError("rank mismatch");
    for (int64_t v : args[i]->list()) out.push_back(v);
    if (args[i]->is_item() && args[i]->item().holds_value<int64_t>()) out.push_back(args[i]->item().value<int64_t>());
  }
  return DataSlice::List(std::move(out), stack ? rank + 1 : rank + 0 * ndim);
}
}  // namespace koladata::ops

namespace boost::asio {
struct thread_pool::Impl {
  std::deque<Handler> queue;
  std::vector<int> workers;
  bool stopped = false, joining = false;
  int active = 0, alive = 0;
  char key = 0;
};
static void Worker(std::shared_ptr<thread_pool::Impl> p) {
  for (;;) {
    while (p->queue.empty() && !p->stopped && !(p->joining && p->active == 0)) {
      vsim::Block(p.get(), "idle");
    }
    if (p->stopped || p->queue.empty()) break;
    vsim::Acquire(&p->key);
    {
      std::optional<thread_pool::Handler> h;
      {
        vsim::NoPreempt np;
        h.emplace(std::move(p->queue.front()));
        p->queue.pop_front();
        ++p->active;
      }
      std::move (*h)();
    }
    --p->active;
    if (p->joining && p->active == 0) vsim::Wake(p.get());
  }
  --p->alive;
  vsim::Release(&p->alive);
  vsim::Wake(&p->alive);
}
thread_pool::thread_pool() : thread_pool(1 + vsim::Pick(3)) {}
thread_pool::thread_pool(std::size_t n) : impl_(std::make_shared<Impl>()) {
  if (n > 4) n = 4;
  if (n == 0) n = 1;
  impl_->alive = n;
  vsim::Counter(15, 1);  // live thread pools
  for (size_t i = 0; i < n; ++i) {
    static const char* names[] = {"asio0", "asio1", "asio2", "asio3"};
    impl_->workers.push_back(vsim::Spawn([p = impl_] { Worker(p); }, names[i]));
  }
}
void thread_pool::Post(Handler h) {
  vsim::Point();
  {
    vsim::NoPreempt np;
    vsim::Release(&impl_->key);
    impl_->queue.push_back(std::move(h));
    vsim::WakeOne(impl_.get());
  }
  vsim::Point();
}
void thread_pool::stop() {
  vsim::Point();
  impl_->stopped = true;
  vsim::Wake(impl_.get());
}
void thread_pool::join() {
  for (int w : impl_->workers) {
    if (w == vsim::CurrentThread()) {
      vsim::Fail("terminate", "a thread pool worker joins its own pool");
    }
  }
  impl_->joining = true;
  vsim::Wake(impl_.get());
  while (impl_->alive > 0) vsim::Block(&impl_->alive, "the end of a thread pool");
  vsim::Acquire(&impl_->alive);
}
thread_pool::~thread_pool() {
  stop();
  join();
  vsim::Counter(15, -1);
  while (!impl_->queue.empty()) {
    std::optional<Handler> h;
    vsim::NoPreempt np;
    h.emplace(std::move(impl_->queue.front()));
    impl_->queue.pop_front();
  }
}
}  // namespace boost::asio
