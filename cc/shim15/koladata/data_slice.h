// Slices of items of any type, with a schema and a bag. An item may hold a
// Python object (as a quoted expression does), whose release needs the GIL.
#ifndef SHIM15_DATA_SLICE_H_
#define SHIM15_DATA_SLICE_H_
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <variant>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/expr/quote.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#include "py/arolla/py_utils/py_utils.h"
#include "vsim.h"
namespace koladata {
namespace schema {
class DType {
 public:
  enum Id { kNoneId, kObjectId, kInt64Id, kStringId, kBoolId, kMaskId, kExprId, kSchemaId };
  constexpr DType(Id id = kNoneId) : id_(id) {}  // NOLINT
  friend constexpr bool operator==(DType a, DType b) { return a.id_ == b.id_; }
  bool is_primitive() const { return id_ == kInt64Id || id_ == kStringId || id_ == kBoolId || id_ == kMaskId || id_ == kExprId; }
  static bool VerifyQTypeSupported(arolla::QTypePtr t) { return t == arolla::GetQType<int64_t>() || t == arolla::GetQType<arolla::Text>(); }
  static absl::StatusOr<DType> FromQType(arolla::QTypePtr t) {
    if (t == arolla::GetQType<int64_t>()) return DType(kInt64Id);
    if (t == arolla::GetQType<arolla::Text>()) return DType(kStringId);
    return absl::InvalidArgumentError("unsupported type");
  }
 private:
  Id id_;
};
inline constexpr DType kNone(DType::kNoneId), kObject(DType::kObjectId), kInt64(DType::kInt64Id), kString(DType::kStringId),
    kBool(DType::kBoolId), kMask(DType::kMaskId), kExpr(DType::kExprId), kSchema(DType::kSchemaId);
template <typename T>
DType GetDType() { return *DType::FromQType(arolla::GetQType<T>()); }
}  // namespace schema
namespace internal {
struct ObjectId {
  int64_t id = 0;
  friend auto operator<=>(const ObjectId&, const ObjectId&) = default;
  template <typename H>
  friend H AbslHashValue(H h, const ObjectId& o) { return H::combine(std::move(h), o.id); }
};
using PyBox = std::shared_ptr<const arolla::python::PyObjectGILSafePtr>;
class DataItem {
 public:
  DataItem() = default;
  template <typename T>
  explicit DataItem(T v) : v_(std::move(v)) {}
  bool has_value() const { return v_.index() != 0; }
  template <typename T>
  bool holds_value() const { return std::holds_alternative<T>(v_); }
  template <typename T>
  const T& value() const {
    if (!holds_value<T>()) vsim::Fail("crash", "DataItem::value() of another type");
    return std::get<T>(v_);
  }
  inline arolla::QTypePtr dtype() const;
  bool is_primitive_schema() const { return holds_value<schema::DType>() && value<schema::DType>().is_primitive(); }
  bool is_struct_schema() const { return false; }
  friend bool operator==(const DataItem& a, const DataItem& b) { return a.v_ == b.v_; }
  friend bool operator==(const DataItem& a, schema::DType b) { return a.holds_value<schema::DType>() && a.value<schema::DType>() == b; }
 private:
  std::variant<std::monostate, ObjectId, int64_t, arolla::Text, schema::DType, PyBox, arolla::expr::ExprQuote> v_;
};
class DataSliceImpl {
 public:
  DataSliceImpl() = default;
  explicit DataSliceImpl(std::vector<DataItem> v) : v_(std::move(v)) {
    bool ids = true;
    for (auto& i : v_) {
      if (!i.has_value()) continue;
      empty_ = false;
      ids &= i.holds_value<ObjectId>();
    }
    ids_only_ = ids && !empty_;
    for (auto& i : v_) ids_.Add(i.holds_value<ObjectId>(), i.holds_value<ObjectId>() ? i.value<ObjectId>() : ObjectId{-1});
  }
  template <typename T>
  static DataSliceImpl Create(arolla::DenseArray<T>) {
    vsim::Fail("crash", "not modelled");
  }
  bool is_empty_and_unknown() const { return empty_; }
  inline arolla::QTypePtr dtype() const;
  template <typename T>
  const arolla::DenseArray<T>& values() const {
    static_assert(std::is_same_v<T, ObjectId>);
    if (!ids_only_ && !empty_) vsim::Fail("crash", "values<ObjectId>() of another type");
    return ids_;
  }
  size_t size() const { return v_.size(); }
  size_t present_count() const {
    size_t n = 0;
    for (auto& i : v_) n += i.has_value();
    return n;
  }
  const DataItem& operator[](size_t i) const {
    if (i >= v_.size()) vsim::Fail("crash", "an index outside of a slice");
    return v_[i];
  }
 private:
  std::vector<DataItem> v_;
  arolla::DenseArray<ObjectId> ids_;
  bool empty_ = true, ids_only_ = false;
};
}  // namespace internal
class DataBag;
using DataBagPtr = std::shared_ptr<const DataBag>;
class DataBag {
 public:
  std::map<internal::ObjectId, internal::DataItem> facts;  // the value of an object's attribute
  std::vector<DataBagPtr> fallbacks;
  const internal::DataItem* Find(internal::ObjectId o) const {
    auto it = facts.find(o);
    if (it != facts.end()) return &it->second;
    for (auto& f : fallbacks) if (auto* r = f->Find(o)) return r;
    return nullptr;
  }
  int64_t GetApproxTotalByteSize() const {
    int64_t n = facts.size();
    for (auto& f : fallbacks) n += f->GetApproxTotalByteSize();
    return n;
  }
};
class DataSlice {
 public:
  // Sizes of the dimensions.
  struct Edge {
    int64_t size = 0;
  };
  struct JaggedShape : std::vector<int64_t> {
    using std::vector<int64_t>::vector;
    static JaggedShape FlatFromSize(int64_t n) { return {n}; }
    size_t rank() const { return size(); }
    JaggedShape RemoveDims(size_t from) const { return JaggedShape(begin(), begin() + from); }
    std::vector<Edge> edges() const {
      std::vector<Edge> r;
      for (int64_t d : *this) r.push_back({d});
      return r;
    }
  };
  DataSlice() = default;
  static absl::StatusOr<DataSlice> Create(internal::DataItem i, internal::DataItem schema, DataBagPtr bag = nullptr) {
    return Make(internal::DataSliceImpl({std::move(i)}), {}, std::move(schema), std::move(bag));
  }
  static absl::StatusOr<DataSlice> Create(internal::DataSliceImpl s, JaggedShape shape, internal::DataItem schema, DataBagPtr bag = nullptr) {
    size_t n = 1;
    for (int64_t d : shape) n *= d;
    if (n != s.size()) return absl::InvalidArgumentError("shape size must be compatible with number of items");
    return Make(std::move(s), std::move(shape), std::move(schema), std::move(bag));
  }
  static DataSlice UnsafeCreate(internal::DataItem i, internal::DataItem schema, DataBagPtr bag = nullptr) {
    return Make(internal::DataSliceImpl({std::move(i)}), {}, std::move(schema), std::move(bag));
  }
  bool is_item() const { return shape_.empty(); }
  const internal::DataItem& item() const {
    if (!is_item()) vsim::Fail("crash", "item() of a slice");
    return impl_[0];
  }
  const internal::DataSliceImpl& slice() const {
    if (is_item()) vsim::Fail("crash", "slice() of an item");
    return impl_;
  }
  const internal::DataSliceImpl& impl() const { return impl_; }
  const JaggedShape& GetShape() const { return shape_; }
  const internal::DataItem& GetSchemaImpl() const { return schema_; }
  const DataBagPtr& GetBag() const { return bag_; }
  size_t size() const { return impl_.size(); }
  size_t present_count() const { return impl_.present_count(); }
  bool impl_empty_and_unknown() const { return impl_.is_empty_and_unknown(); }
  bool impl_has_mixed_dtype() const { return !impl_empty_and_unknown() && dtype() == arolla::GetNothingQType(); }
  absl::StatusOr<DataSlice> Reshape(JaggedShape shape) const { return Create(impl_, std::move(shape), schema_, bag_); }
  bool IsEmpty() const { return impl_.is_empty_and_unknown(); }
  arolla::QTypePtr dtype() const { return impl_.dtype(); }
  DataSlice WithBag(DataBagPtr b) const {
    DataSlice r = *this;
    r.bag_ = std::move(b);
    return r;
  }
  // One byte per item and per fact.
  int64_t GetApproxByteSize() const { return impl_.size(); }
  int64_t GetApproxByteSizeWithBag() const { return impl_.size() + (bag_ ? bag_->GetApproxTotalByteSize() : 0); }
 private:
  static DataSlice Make(internal::DataSliceImpl s, JaggedShape shape, internal::DataItem schema, DataBagPtr bag) {
    DataSlice d;
    d.impl_ = std::move(s);
    d.shape_ = std::move(shape);
    d.schema_ = std::move(schema);
    d.bag_ = std::move(bag);
    return d;
  }
  internal::DataSliceImpl impl_ = internal::DataSliceImpl(std::vector<internal::DataItem>(1));
  JaggedShape shape_;
  internal::DataItem schema_ = internal::DataItem(schema::kNone);
  DataBagPtr bag_;
};
inline absl::StatusOr<DataSlice> BroadcastToShape(const DataSlice& s, DataSlice::JaggedShape shape) {
  auto& from = s.GetShape();
  if (from.size() > shape.size()) return absl::InvalidArgumentError("cannot broadcast");
  for (size_t i = 0; i < from.size(); ++i) if (from[i] != shape[i]) return absl::InvalidArgumentError("cannot broadcast");
  size_t n = 1;
  for (int64_t d : shape) n *= d;
  std::vector<internal::DataItem> v;
  for (size_t i = 0; i < n; ++i) v.push_back(s.impl()[s.size() ? i / (n / s.size()) : 0]);
  if (shape.empty()) return s;
  return DataSlice::Create(internal::DataSliceImpl(std::move(v)), std::move(shape), s.GetSchemaImpl(), s.GetBag());
}
}  // namespace koladata
namespace arolla {
AROLLA_DECLARE_SIMPLE_QTYPE(SLICE15, koladata::DataSlice);
AROLLA_DECLARE_SIMPLE_QTYPE(OBJECT_ID15, koladata::internal::ObjectId);
AROLLA_DECLARE_SIMPLE_QTYPE(EDGE15, koladata::DataSlice::Edge);
AROLLA_DECLARE_SIMPLE_QTYPE(PY_BOX15, koladata::internal::PyBox);
}  // namespace arolla
namespace koladata::internal {
arolla::QTypePtr DataItem::dtype() const {
  if (holds_value<ObjectId>()) return arolla::GetQType<ObjectId>();
  if (holds_value<int64_t>()) return arolla::GetQType<int64_t>();
  if (holds_value<arolla::Text>()) return arolla::GetQType<arolla::Text>();
  if (holds_value<PyBox>()) return arolla::GetQType<PyBox>();
  return arolla::GetNothingQType();
}
arolla::QTypePtr DataSliceImpl::dtype() const {
  arolla::QTypePtr t = arolla::GetNothingQType();
  for (auto& i : v_) {
    if (!i.has_value()) continue;
    if (t != arolla::GetNothingQType() && t != i.dtype()) return arolla::GetNothingQType();
    t = i.dtype();
  }
  return t;
}
}  // namespace koladata::internal
#endif
