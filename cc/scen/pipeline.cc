#include "pipeline.h"
namespace sim {
void Finish(Exec& ex) {
  ex.ptr.reset();
  ex.pool.reset();
  vsim::Quiesce();
  CheckNoLeaks();
}
}  // namespace sim
