#include "arolla/dense_array/dense_array.h"
