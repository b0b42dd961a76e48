#include "arolla/sequence/sequence.h"
