#ifndef SHIM_META_H_
#define SHIM_META_H_
namespace arolla::meta {
template <typename T>
struct type_ { using type = T; };
template <typename T>
using type = type_<T>;
}  // namespace arolla::meta
#endif
