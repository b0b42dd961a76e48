#include "arolla/qtype/qtype_traits.h"
