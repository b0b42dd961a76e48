#ifndef SCEN_PIPELINE_H_
#define SCEN_PIPELINE_H_
#include "common.h"
namespace sim {
// Drops the executor, waits until nothing runs, and checks for leaks.
void Finish(Exec& ex);
}  // namespace sim
#endif
