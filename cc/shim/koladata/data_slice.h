// The part of DataSlice that the parallel code touches: an item (missing, mask,
// text, integer) or a list of integers of some rank.
#ifndef SHIM_DATA_SLICE_H_
#define SHIM_DATA_SLICE_H_
#include <cstdint>
#include <memory>
#include <string>
#include <utility>
#include <variant>
#include <vector>
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#include "koladata/internal/dtype.h"
namespace koladata {
namespace internal {
class DataItem {
 public:
  DataItem() = default;
  template <typename T>
  explicit DataItem(T v) : v_(std::move(v)) {}
  bool has_value() const { return v_.index() != 0; }
  template <typename T>
  bool holds_value() const { return std::holds_alternative<T>(v_); }
  template <typename T>
  const T& value() const { return std::get<T>(v_); }
 private:
  std::variant<std::monostate, arolla::Unit, arolla::Text, int64_t, bool> v_;
};
}  // namespace internal
class DataSlice {
 public:
  class JaggedShape {
   public:
    explicit JaggedShape(int64_t r, int64_t n = 1) : r_(r), n_(n) {}
    int64_t rank() const { return r_; }
    int64_t size() const { return n_; }
   private:
    int64_t r_, n_;
  };
  DataSlice() = default;
  static DataSlice CreatePrimitive(arolla::Text t) { return Item(internal::DataItem(std::move(t)), schema::kString); }
  static DataSlice CreatePrimitive(bool b) { return Item(internal::DataItem(b), schema::kBool); }
  static DataSlice CreatePrimitive(int64_t i) { return Item(internal::DataItem(i), schema::kInt64); }
  static DataSlice CreatePrimitive(arolla::Unit u) { return Item(internal::DataItem(u), schema::kMask); }
  static DataSlice Item(internal::DataItem i, schema::DType s) {
    DataSlice d;
    d.item_ = std::move(i);
    d.schema_ = s;
    return d;
  }
  static DataSlice List(std::vector<int64_t> v, int64_t rank) {
    DataSlice d;
    d.list_ = std::move(v);
    d.rank_ = rank;
    return d;
  }
  // The items of a list, each to be made a slice of.
  std::vector<internal::DataItem> slice() const {
    std::vector<internal::DataItem> r;
    for (int64_t v : list_) r.push_back(internal::DataItem(v));
    return r;
  }
  using BagPtr = std::shared_ptr<const int>;
  const BagPtr& GetBag() const { return bag_; }
  DataSlice WithBag(BagPtr b) const {
    DataSlice d = *this;
    d.bag_ = std::move(b);
    return d;
  }
  static DataSlice UnsafeCreate(internal::DataItem i, schema::DType s, BagPtr b) { return Item(std::move(i), s).WithBag(std::move(b)); }
  bool is_item() const { return rank_ == 0; }
  const internal::DataItem& item() const { return item_; }
  schema::DType GetSchemaImpl() const { return schema_; }
  JaggedShape GetShape() const { return JaggedShape(rank_, rank_ ? list_.size() : 1); }
  bool IsEmpty() const { return rank_ == 0 ? !item_.has_value() : list_.empty(); }
  const std::vector<int64_t>& list() const { return list_; }
 private:
  internal::DataItem item_;
  schema::DType schema_ = schema::kNone;
  std::vector<int64_t> list_;
  int64_t rank_ = 0;
  BagPtr bag_;
};
}  // namespace koladata
namespace arolla {
AROLLA_DECLARE_SIMPLE_QTYPE(DATA_SLICE, koladata::DataSlice);
}  // namespace arolla
#endif
