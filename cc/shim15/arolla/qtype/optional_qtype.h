#include "arolla/qtype/qtype.h"
