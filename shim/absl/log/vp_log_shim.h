// Minimal stand-in for absl/log (LOG, CHECK*): Debian's abseil 20220623 has none.
// Same semantics as upstream for what /repo uses: INFO/WARNING/ERROR go to stderr,
// FATAL and a failed CHECK print the message and abort().
#ifndef VP_ABSL_LOG_SHIM_H_
#define VP_ABSL_LOG_SHIM_H_
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>

#include "absl/status/status.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"

namespace vp_log {
enum Sev { kINFO, kWARNING, kERROR, kFATAL };
class Msg {
 public:
  Msg(Sev sev, const char* file, int line) : sev_(sev) {
    static const char* n[] = {"I", "W", "E", "F"};
    os_ << n[sev] << " " << file << ":" << line << "] ";
  }
  ~Msg() {
    if (sev_ == kFATAL || std::getenv("VP_LOG") != nullptr) {
      os_ << "\n";
      std::cerr << os_.str() << std::flush;
    }
    if (sev_ == kFATAL) std::abort();
  }
  std::ostream& stream() { return os_; }

 private:
  Sev sev_;
  std::ostringstream os_;
};
struct Voidify {
  void operator&&(const Msg&) && {}
};
template <typename T>
Msg& operator<<(Msg& m, const T& v) {
  m.stream() << v;
  return m;
}
template <typename T>
Msg& operator<<(Msg&& m, const T& v) {
  m.stream() << v;
  return m;
}
inline Msg& operator<<(Msg& m, std::ostream& (*f)(std::ostream&)) {
  m.stream() << f;
  return m;
}
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T>
auto AsStatus(const T& s) -> decltype(s.status()) {
  return s.status();
}
}  // namespace vp_log

#define VP_LOG_AT(sev) ::vp_log::Voidify() && ::vp_log::Msg(::vp_log::sev, __FILE__, __LINE__)
#define LOG(sev) VP_LOG_AT(k##sev)
#define LOG_IF(sev, c) !(c) ? (void)0 : VP_LOG_AT(k##sev)
#define CHECK(c) \
  (__builtin_expect(!!(c), 1)) ? (void)0 : VP_LOG_AT(kFATAL) << "Check failed: " #c " "
#define VP_CHECK_OP(a, b, op)                                      \
  ((a)op(b)) ? (void)0 : VP_LOG_AT(kFATAL) << "Check failed: " #a " " #op " " #b " "
#define CHECK_EQ(a, b) VP_CHECK_OP(a, b, ==)
#define CHECK_NE(a, b) VP_CHECK_OP(a, b, !=)
#define CHECK_GE(a, b) VP_CHECK_OP(a, b, >=)
#define CHECK_GT(a, b) VP_CHECK_OP(a, b, >)
#define CHECK_LE(a, b) VP_CHECK_OP(a, b, <=)
#define CHECK_LT(a, b) VP_CHECK_OP(a, b, <)
#define CHECK_OK(s) \
  (::vp_log::AsStatus(s).ok()) ? (void)0 : VP_LOG_AT(kFATAL) << "Check failed: " #s " is OK "
#define QCHECK(c) CHECK(c)
#define QCHECK_OK(c) CHECK_OK(c)
#ifdef NDEBUG
#define DCHECK(c) CHECK(true || (c))
#define DCHECK_EQ(a, b) CHECK(true || (a) == (b))
#define DCHECK_NE(a, b) CHECK(true || (a) != (b))
#define DCHECK_LT(a, b) CHECK(true || (a) < (b))
#define DCHECK_LE(a, b) CHECK(true || (a) <= (b))
#define DCHECK_GT(a, b) CHECK(true || (a) > (b))
#define DCHECK_GE(a, b) CHECK(true || (a) >= (b))
#define DCHECK_OK(s) CHECK(true || ::vp_log::AsStatus(s).ok())
#else
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_OK(s) CHECK_OK(s)
#endif
#endif
