// Minimal stand-in for absl/log/log.h (libabsl here is 20220623, older than
// absl/log).  LOG() writes one line to stderr, prefixed like abseil's
// ("I", "W", "E", "F"), so that it can never be mistaken for a diagnostic of
// the form FILE:LINE:.  LOG(FATAL) and a failed CHECK() abort.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
namespace verif_shim {
class LogMessage {
 public:
  LogMessage(char sev, const char* file, int line) : sev_(sev) {
    const char* b = file;
    for (const char* p = file; *p; ++p) if (*p == '/') b = p + 1;
    os_ << "@LOG " << sev_ << ' ' << b << ' ' << line << "] ";
  }
  ~LogMessage() {
    os_ << '\n';
    std::cerr << os_.str() << std::flush;
    if (sev_ == 'F') std::abort();
  }
  std::ostream& stream() { return os_; }
  LogMessage& self() { return *this; }
  template <class T> LogMessage& operator<<(const T& t) { os_ << t; return *this; }
 private:
  char sev_;
  std::ostringstream os_;
};
struct Voidify {
  template <class T> void operator&&(T&&) const {}
};
struct NullStream {
  template <class T> NullStream& operator<<(const T&) { return *this; }
};
}  // namespace verif_shim
#define VERIF_LOG_INFO 'I'
#define VERIF_LOG_WARNING 'W'
#define VERIF_LOG_ERROR 'E'
#define VERIF_LOG_FATAL 'F'
#define VERIF_LOG_QFATAL 'F'
#define VERIF_LOG_DFATAL 'F'
#define LOG(sev) ::verif_shim::LogMessage(VERIF_LOG_##sev, __FILE__, __LINE__).self()
#define LOG_IF(sev, c) \
  !(c) ? (void)0 : ::verif_shim::Voidify() && LOG(sev)
#define DLOG(sev) LOG(sev)
#define DLOG_IF(sev, c) LOG_IF(sev, c)
#define PLOG(sev) LOG(sev)
#define LOG_FIRST_N(sev, n) \
  if (static int verif_log_n = 0; verif_log_n++ >= (n)) {} else LOG(sev)
#define LOG_EVERY_N(sev, n) \
  if (static int verif_log_n = 0; verif_log_n++ % (n)) {} else LOG(sev)
#define VLOG(n) if (true) {} else ::verif_shim::NullStream()
#include "absl/log/check.h"
#endif
