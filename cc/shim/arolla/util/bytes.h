#ifndef SHIM_BYTES_H_
#define SHIM_BYTES_H_
#include <string>
namespace arolla { using Bytes = std::string; }
#endif
