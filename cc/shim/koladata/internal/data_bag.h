// A small stand-in for the store inside a DataBag, with the same contract: a
// fork refers to its parent, so a parent must not change any more.
#ifndef SHIM_INTERNAL_DATA_BAG_H_
#define SHIM_INTERNAL_DATA_BAG_H_
#include <atomic>
#include <cstdint>
#include <map>
#include <utility>
#include "absl/log/log.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/util/refcount_ptr.h"
#include "koladata/internal/object_id.h"
#include "vsim.h"
namespace koladata::internal {
struct MergeOptions {
  enum ConflictHandlingOption { kRaiseOnConflict, kKeepOriginal, kOverwrite };
  ConflictHandlingOption data_conflict_policy = kRaiseOnConflict;
  ConflictHandlingOption schema_conflict_policy = kRaiseOnConflict;
};
class DataBagImpl;
using DataBagImplPtr = arolla::RefcountPtr<DataBagImpl>;
using DataBagImplConstPtr = arolla::RefcountPtr<const DataBagImpl>;
class DataBagImpl : public arolla::RefcountedBase {
  struct PrivateConstructorTag {};
 public:
  using FallbackSpan = absl::Span<const DataBagImpl* const>;
  // (is a schema, object)
  using Key = std::pair<int, int>;
  using Facts = std::map<Key, int64_t>;
  static constexpr int kLiveImpls = 9, kLowestStack = 10;

  explicit DataBagImpl(PrivateConstructorTag) { vsim::Counter(kLiveImpls, 1); }
  ~DataBagImpl() noexcept {
    vsim::Counter(kLiveImpls, -1);
    // How deep destructors nest.
    int64_t here = (int64_t)__builtin_frame_address(0);
    int64_t low = vsim::Counter(kLowestStack, 0);
    if (low != 0 && here < low) vsim::Counter(kLowestStack, here - low);
  }
  static DataBagImplPtr CreateEmptyDatabag() { return DataBagImplPtr::Make(PrivateConstructorTag{}); }
  DataBagImplPtr PartiallyPersistentFork() const {
    auto res = CreateEmptyDatabag();
    res->parent_ = IsPristine() ? parent_ : DataBagImplConstPtr::NewRef(this);
    return res;
  }
  bool IsPristine() const { return facts_.empty(); }
  bool IsEmpty() const { return IsPristine() && parent_ == nullptr; }
  bool IsFrozen() const { return frozen_; }
  void Freeze() { frozen_ = true; }
  void AssignToDataBag() {
    if (is_assigned_) vsim::Fail("impl-shared", "one DataBagImpl is used by two DataBags");
    is_assigned_ = true;
  }
  absl::Status Set(Key k, int64_t v) {
    if (frozen_) return absl::InvalidArgumentError("the DataBag is frozen");
    facts_[k] = v;
    return absl::OkStatus();
  }
  Facts All() const {
    Facts f;
    for (const DataBagImpl* b = this; b; b = b->parent_.get()) f.insert(b->facts_.begin(), b->facts_.end());
    return f;
  }
  absl::Status MergeInplace(const DataBagImpl& other, MergeOptions o = MergeOptions()) {
    if (frozen_) return absl::InvalidArgumentError("the DataBag is frozen");
    Facts mine = All();
    Facts theirs = other.All();
    for (auto& [k, v] : theirs) {
      auto policy = k.first ? o.schema_conflict_policy : o.data_conflict_policy;
      auto it = mine.find(k);
      if (it != mine.end() && it->second == v) continue;
      if (it == mine.end() || policy == MergeOptions::kOverwrite) facts_[k] = v;
      else if (policy == MergeOptions::kRaiseOnConflict) return absl::FailedPreconditionError("conflict");
    }
    return absl::OkStatus();
  }
  absl::StatusOr<DataBagImplPtr> CreateOverwritingMergeUpdate(const DataBagImpl& other) const {
    auto update = CreateEmptyDatabag();
    Facts mine = All();
    for (auto& [k, v] : other.All()) {
      auto it = mine.find(k);
      if (it == mine.end() || it->second != v) update->facts_[k] = v;
    }
    return update;
  }
  int64_t GetApproxTotalByteSize() const { return 10 * All().size(); }

 private:
  DataBagImplConstPtr parent_ = nullptr;
  bool is_assigned_ = false;
  std::atomic_bool frozen_ = false;
  Facts facts_;
};
}  // namespace koladata::internal
#endif
