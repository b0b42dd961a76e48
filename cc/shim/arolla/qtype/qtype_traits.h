#ifndef SHIM_QTYPE_TRAITS_H_
#define SHIM_QTYPE_TRAITS_H_
#include <cstdint>
#include <type_traits>
#include "arolla/qtype/qtype.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
namespace arolla {
template <typename T>
struct QTypeTraits {};
template <> struct QTypeTraits<int64_t> { static QTypePtr type(); };
template <> struct QTypeTraits<int32_t> { static QTypePtr type(); };
template <> struct QTypeTraits<Unit> { static QTypePtr type(); };
template <> struct QTypeTraits<Text> { static QTypePtr type(); };
template <typename T>
QTypePtr GetQType() { return QTypeTraits<std::decay_t<T>>::type(); }
}  // namespace arolla
#endif
