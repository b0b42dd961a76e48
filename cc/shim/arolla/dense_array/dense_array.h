#ifndef SHIM_DENSE_ARRAY_H_
#define SHIM_DENSE_ARRAY_H_
namespace arolla {
template <typename T>
class DenseArray;
}  // namespace arolla
#endif
