#include "koladata/data_slice.h"
