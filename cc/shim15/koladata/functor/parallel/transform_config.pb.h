#ifndef SHIM15_TRANSFORM_CONFIG_PB_H_
#define SHIM15_TRANSFORM_CONFIG_PB_H_
#include <cstdint>
#include <string>
#include <vector>
#include "absl/strings/string_view.h"
namespace koladata::functor::parallel {
namespace shim_proto {
std::vector<std::string> Tokens(absl::string_view text);
}  // namespace shim_proto
class ParallelTransformConfigProto {
 public:
  class ArgumentTransformation {
   public:
    enum ReplacementArgument { NOT_SET = 0, ORIGINAL_ARGUMENTS = 1, EXECUTOR = 2, NON_DETERMINISTIC_TOKEN = 4 };
    int arguments_size() const { return arguments_.size(); }
    void add_arguments(ReplacementArgument a) { arguments_.push_back(a); }
    const std::vector<ReplacementArgument>& arguments() const { return arguments_; }
    const std::vector<int64_t>& keep_literal_argument_indices() const { return keep_; }
    const std::vector<int64_t>& functor_argument_indices() const { return functors_; }
   private:
    friend class ParallelTransformConfigProto;
    std::vector<ReplacementArgument> arguments_;
    std::vector<int64_t> keep_, functors_;
  };
  class OperatorReplacement {
   public:
    const std::string& from_op() const { return from_; }
    const std::string& to_op() const { return to_; }
    const ArgumentTransformation& argument_transformation() const { return args_; }
    bool ShimParse(absl::string_view text) {
      auto t = shim_proto::Tokens(text);
      size_t i = 0;
      return Parse(t, i) && i == t.size();
    }
   private:
    friend class ParallelTransformConfigProto;
    bool Parse(const std::vector<std::string>& t, size_t& i) {
      while (i < t.size() && t[i] != "}") {
        const std::string name = t[i++];
        if (i >= t.size()) return false;
        if (name == "from_op" && i < t.size()) from_ = t[i++];
        else if (name == "to_op" && i < t.size()) to_ = t[i++];
        else if (name == "argument_transformation" && t[i] == "{") {
          for (++i; i < t.size() && t[i] != "}";) {
            const std::string f = t[i++];
            if (i >= t.size()) return false;
            const std::string v = t[i++];
            if (f == "arguments") args_.arguments_.push_back(v == "EXECUTOR" ? ArgumentTransformation::EXECUTOR : v == "NON_DETERMINISTIC_TOKEN" ? ArgumentTransformation::NON_DETERMINISTIC_TOKEN : ArgumentTransformation::ORIGINAL_ARGUMENTS);
            else if (f == "keep_literal_argument_indices") args_.keep_.push_back(atoi(v.c_str()));
            else if (f == "functor_argument_indices") args_.functors_.push_back(atoi(v.c_str()));
            else return false;
          }
          if (i >= t.size()) return false;
          ++i;
        } else {
          return false;
        }
      }
      return true;
    }
    std::string from_, to_;
    ArgumentTransformation args_;
  };
  int operator_replacements_size() const { return replacements_.size(); }
  const std::vector<OperatorReplacement>& operator_replacements() const { return replacements_; }
  OperatorReplacement* add_operator_replacements() { return &replacements_.emplace_back(); }
  bool allow_runtime_transforms() const { return allow_; }
  void set_allow_runtime_transforms(bool a) { allow_ = a; }
  bool ShimParse(absl::string_view text) {
    auto t = shim_proto::Tokens(text);
    for (size_t i = 0; i < t.size();) {
      if (t[i] != "operator_replacements" || i + 1 >= t.size() || t[i + 1] != "{") return false;
      i += 2;
      if (!add_operator_replacements()->Parse(t, i) || i >= t.size()) return false;
      ++i;
    }
    return true;
  }
 private:
  std::vector<OperatorReplacement> replacements_;
  bool allow_ = false;
};
}  // namespace koladata::functor::parallel
#endif
