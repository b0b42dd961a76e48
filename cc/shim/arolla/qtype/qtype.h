#ifndef SHIM_QTYPE_H_
#define SHIM_QTYPE_H_
#include <cstddef>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
#include "absl/strings/string_view.h"
#include "arolla/util/fast_dynamic_downcast_final.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/meta.h"
#include "arolla/util/repr.h"
namespace arolla {
class QType;
using QTypePtr = const QType*;

struct Ops {
  size_t size = 1, align = 1;
  void (*init)(void*) = nullptr;
  void (*destroy)(void*) = nullptr;
  void (*copy)(const void*, void*) = nullptr;
};
template <typename T>
Ops OpsFor() {
  Ops o;
  o.size = std::is_empty_v<T> ? 0 : sizeof(T);
  o.align = alignof(T);
  o.init = [](void* p) { if constexpr (!std::is_empty_v<T>) new (p) T(); };
  o.destroy = [](void* p) { if constexpr (!std::is_empty_v<T>) ((T*)p)->~T(); };
  o.copy = [](const void* s, void* d) {
    if constexpr (!std::is_empty_v<T>) *(T*)d = *(const T*)s;
  };
  return o;
}
struct QField {
  std::string name;
  QTypePtr type = nullptr;
  size_t offset = 0;
  QTypePtr GetType() const { return type; }
};
template <typename T>
struct Slot;
class FrameLayout {
 public:
  template <typename T>
  using Slot = arolla::Slot<T>;
  explicit FrameLayout(QTypePtr t) : t_(t) {}
  size_t AllocSize() const;
  struct Alignment {
    size_t value;
    operator size_t() const { return value; }
  };
  size_t AllocAlignment() const;
  void InitializeAlignedAllocN(void* p, size_t n) const;
  void DestroyAllocN(void* p, size_t n) const;
  void InitializeAlignedAlloc(void* p) const { InitializeAlignedAllocN(p, 1); }
  void DestroyAlloc(void* p) const { DestroyAllocN(p, 1); }
 private:
  QTypePtr t_;
};
class QType {
 public:
  virtual ~QType() = default;
  QType(const QType&) = delete;
  absl::string_view name() const { return name_; }
  QTypePtr value_qtype() const { return value_qtype_; }
  FrameLayout type_layout() const { return FrameLayout(this); }
  void UnsafeCopy(const void* src, void* dst) const;
  void UnsafeInit(void* p) const;
  void UnsafeDestroy(void* p) const;
  const Ops& ops() const { return ops_; }
  const std::vector<QField>& type_fields() const { return fields_; }
  const std::type_info* type_id() const { return type_; }
  absl::string_view qtype_specialization_key() const { return key_; }
  const std::string& label() const { return label_; }
  virtual absl::string_view UnsafePyQValueSpecializationKey(const void*) const { return {}; }
  QTypePtr base() const { return base_; }
  bool named() const { return named_; }
  bool is_tuple() const { return tuple_; }
  struct Args {
    std::string name;
    const std::type_info* type = nullptr;
    Ops ops;
    QTypePtr value_qtype = nullptr;
    std::string key;
    std::vector<QField> fields;
    std::string label;
    QTypePtr base = nullptr;
    bool named = false;
    bool tuple = false;
  };
  explicit QType(Args a)
      : name_(std::move(a.name)), type_(a.type), ops_(a.ops), value_qtype_(a.value_qtype),
        key_(std::move(a.key)), fields_(std::move(a.fields)), label_(std::move(a.label)),
        base_(a.base), named_(a.named), tuple_(a.tuple) {}
 private:
  std::string name_;
  const std::type_info* type_;
  Ops ops_;
  QTypePtr value_qtype_;
  std::string key_;
  std::vector<QField> fields_;
  std::string label_;
  QTypePtr base_;
  bool named_, tuple_;
};
QTypePtr GetNothingQType();
inline void FingerprintHasher::AddType(const QType* t) {
  for (char c : t->name()) Mix((unsigned char)c);
}
}  // namespace arolla
#endif
