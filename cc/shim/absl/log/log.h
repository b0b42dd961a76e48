#ifndef SHIM_LOG_H_
#define SHIM_LOG_H_
#include <sstream>
#include <string>
#include "vsim.h"
namespace shim_log {
class Fatal {
 public:
  Fatal(const char* what, const char* file, int line) {
    (void)line;
    std::string f = file;
    s_ << what << " (" << f.substr(f.rfind('/') + 1) << ") ";
  }
  [[noreturn]] ~Fatal() { ::vsim::Fail("fatal", s_.str()); }
  std::ostream& stream() { return s_; }
 private:
  std::ostringstream s_;
};
class Quiet {
 public:
  std::ostream& stream() { return s_; }
 private:
  std::ostringstream s_;
};
}  // namespace shim_log
#define SHIM_LOG_FATAL ::shim_log::Fatal("LOG(FATAL):", __FILE__, __LINE__).stream()
#define SHIM_LOG_DFATAL SHIM_LOG_FATAL
#define SHIM_LOG_INFO ::shim_log::Quiet().stream()
#define SHIM_LOG_WARNING SHIM_LOG_INFO
#define SHIM_LOG_ERROR SHIM_LOG_INFO
#define LOG(x) SHIM_LOG_##x
#define LOG_IF(x, c) if (!(c)) {} else LOG(x)
#define DLOG LOG
#define LOG_EVERY_N(x, n) LOG(x)
#define LOG_FIRST_N(x, n) LOG(x)
#define LOG_EVERY_N_SEC(x, n) LOG(x)
#define PLOG LOG
#define VLOG_IS_ON(n) false
#define VLOG(n) if (true) {} else SHIM_LOG_INFO
#endif
