#ifndef SHIM_FINGERPRINT_H_
#define SHIM_FINGERPRINT_H_
#include <cstddef>
#include <cstdint>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/numeric/int128.h"
#include "absl/strings/string_view.h"
namespace arolla {
struct Fingerprint {
  absl::uint128 value = 0;
  bool operator==(const Fingerprint& o) const { return value == o.value; }
  bool operator!=(const Fingerprint& o) const { return value != o.value; }
  bool operator<(const Fingerprint& o) const { return value < o.value; }
  std::string AsString() const {
    return std::to_string(absl::Uint128High64(value)) + ":" + std::to_string(absl::Uint128Low64(value));
  }
  template <typename H>
  friend H AbslHashValue(H h, const Fingerprint& f) {
    return H::combine(std::move(h), absl::Uint128High64(f.value), absl::Uint128Low64(f.value));
  }
};
Fingerprint RandomFingerprint();
template <typename T>
struct FingerprintHasherTraits;
class QType;
class FingerprintHasher {
 public:
  explicit FingerprintHasher(absl::string_view salt) { Add(std::string(salt)); }
  template <typename... Args>
  FingerprintHasher& Combine(const Args&... a) & {
    (Add(a), ...);
    return *this;
  }
  template <typename... Args>
  FingerprintHasher&& Combine(const Args&... a) && {
    (Add(a), ...);
    return static_cast<FingerprintHasher&&>(*this);
  }
  FingerprintHasher& CombineRawBytes(const void*, size_t) & { return *this; }
  Fingerprint Finish() && { return Fingerprint{absl::MakeUint128(a_, b_)}; }
 private:
  // Values of other types do not count.
  template <typename T>
  void Add(const T& v) {
    if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) Mix((uint64_t)v);
    else if constexpr (std::is_same_v<T, Fingerprint>) Mix(absl::Uint128High64(v.value)), Mix(absl::Uint128Low64(v.value));
    else if constexpr (std::is_convertible_v<T, const QType*>) AddType(v);
    else if constexpr (std::is_convertible_v<T, absl::string_view>) for (char c : absl::string_view(v)) Mix((unsigned char)c);
  }
  void AddType(const QType* t);
  void Mix(uint64_t v) {
    a_ = (a_ ^ v) * 0x9e3779b97f4a7c15ull;
    a_ ^= a_ >> 29;
    b_ = (b_ + v + 1) * 0xbf58476d1ce4e5b9ull;
    b_ ^= b_ >> 31;
  }
  uint64_t a_ = 1, b_ = 2;
};
}  // namespace arolla
#define AROLLA_DECLARE_FINGERPRINT_HASHER_TRAITS(...)                       \
  template <>                                                              \
  struct FingerprintHasherTraits<__VA_ARGS__> {                            \
    void operator()(FingerprintHasher* hasher, const __VA_ARGS__& value) const; \
  }
#endif
