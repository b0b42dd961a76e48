#include "world15.h"

namespace arolla {
int64_t g_lru_big_capacity = 4;
size_t g_lru_hash_mask = ~(size_t)0;
AROLLA_DEFINE_SIMPLE_QTYPE(SLICE15, koladata::DataSlice);
AROLLA_DEFINE_SIMPLE_QTYPE(OBJECT_ID15, koladata::internal::ObjectId);
AROLLA_DEFINE_SIMPLE_QTYPE(EDGE15, koladata::DataSlice::Edge);
AROLLA_DEFINE_SIMPLE_QTYPE(PY_BOX15, koladata::internal::PyBox);
}  // namespace arolla
