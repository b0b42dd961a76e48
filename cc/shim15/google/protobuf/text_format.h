// The text format of messages without nesting beyond what a stand-in knows.
#ifndef SHIM15_TEXT_FORMAT_H_
#define SHIM15_TEXT_FORMAT_H_
#include "absl/strings/string_view.h"
namespace google::protobuf {
struct TextFormat {
  template <typename M>
  static bool ParseFromString(absl::string_view text, M* m) { return m->ShimParse(text); }
};
}  // namespace google::protobuf
#endif
