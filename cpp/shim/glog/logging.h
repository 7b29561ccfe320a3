// A stand-in for the parts of glog the runtime uses: a fatal message is written to stderr and the process aborts, as glog does.
#ifndef SHIM_GLOG_LOGGING_H_
#define SHIM_GLOG_LOGGING_H_
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>

namespace google {
class ShimMessage {
 public:
  ShimMessage(const char* file, int line, bool fatal, const char* what = "") : fatal_(fatal) { stream_ << (fatal ? "FATAL " : "LOG ") << file << ":" << line << "] " << what; }
  ~ShimMessage() {
    std::cerr << stream_.str() << std::endl;
    if (fatal_) std::abort();
  }
  std::ostream& stream() { return stream_; }

 private:
  std::ostringstream stream_;
  bool fatal_;
};
struct ShimVoidify {
  void operator&(std::ostream&) {}
};
inline void InitGoogleLogging(const char*) {}
inline void ShutdownGoogleLogging() {}
inline void InstallFailureSignalHandler() {}
}  // namespace google

#define SHIM_LOG_INFO false
#define SHIM_LOG_WARNING false
#define SHIM_LOG_ERROR false
#define SHIM_LOG_FATAL true
#define LOG(severity) ::google::ShimMessage(__FILE__, __LINE__, SHIM_LOG_##severity).stream()
#define LOG_IF(severity, condition) !(condition) ? (void)0 : ::google::ShimVoidify() & LOG(severity)
#define VLOG(level) true ? (void)0 : ::google::ShimVoidify() & LOG(INFO)
#define DLOG(severity) LOG(severity)
#define CHECK(condition) (condition) ? (void)0 : ::google::ShimVoidify() & ::google::ShimMessage(__FILE__, __LINE__, true, "Check failed: " #condition " ").stream()
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define DCHECK(condition) CHECK(condition)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
template <typename T>
T& ShimCheckNotNull(T& value, const char* file, int line) {
  if (value == nullptr) ::google::ShimMessage(file, line, true, "Check failed: must be non NULL").stream();
  return value;
}
#define CHECK_NOTNULL(value) ShimCheckNotNull(value, __FILE__, __LINE__)
#endif  // SHIM_GLOG_LOGGING_H_
