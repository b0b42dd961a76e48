#ifndef SHIM_TEXT_H_
#define SHIM_TEXT_H_
#include <string>
#include <utility>
#include "absl/strings/string_view.h"
namespace arolla {
class Text {
 public:
  Text() = default;
  explicit Text(const char* s) : s_(s) {}
  explicit Text(absl::string_view s) : s_(s) {}
  explicit Text(std::string&& s) : s_(std::move(s)) {}
  explicit Text(const std::string& s) : s_(s) {}
  absl::string_view view() const { return s_; }
  operator absl::string_view() const { return s_; }
  bool operator==(const Text& o) const { return s_ == o.s_; }
 private:
  std::string s_;
};
}  // namespace arolla
#endif
