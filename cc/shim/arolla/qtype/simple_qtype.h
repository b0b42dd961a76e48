#ifndef SHIM_SIMPLE_QTYPE_H_
#define SHIM_SIMPLE_QTYPE_H_
#include <string>
#include <utility>
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/qtype_traits.h"
namespace arolla {
class SimpleQType : public QType {
 public:
  template <typename T>
  SimpleQType(meta::type_<T>, std::string name, QTypePtr value_qtype = nullptr, std::string key = "")
      : QType(Args{.name = std::move(name), .type = &typeid(T), .ops = OpsFor<T>(),
                   .value_qtype = value_qtype, .key = std::move(key)}) {}
};
}  // namespace arolla
#define AROLLA_DECLARE_SIMPLE_QTYPE(NAME, ...) \
  template <>                                  \
  struct QTypeTraits<__VA_ARGS__> {            \
    static QTypePtr type();                    \
  }
#define AROLLA_DEFINE_SIMPLE_QTYPE(NAME, ...)                                        \
  QTypePtr QTypeTraits<__VA_ARGS__>::type() {                                        \
    static const auto* const r = new SimpleQType(meta::type<__VA_ARGS__>(), #NAME);  \
    return r;                                                                        \
  }
#endif
