// Stand-in for absl/log/absl_check.h. A failed check either aborts (default)
// or, with VERIF_CHECK_THROWS, throws vshim::CheckFailure, so that a monitor
// can observe "this call CHECK-fails" in process. DCHECKs are always on.
#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/vshim_stringify.h"
namespace vshim {
struct CheckFailure : std::runtime_error { using std::runtime_error::runtime_error; };
extern thread_local bool g_quiet_checks;
enum Sev { INFO, WARNING, ERROR, FATAL, DFATAL };
class Fatal {
 public:
  Fatal(const char* file, int line, std::string what) { os_ << file << ":" << line << "] " << what; }
  Fatal(const Fatal&) = delete;
  [[noreturn]] ~Fatal() noexcept(false) {
#ifdef VERIF_CHECK_THROWS
    throw CheckFailure(os_.str());
#else
    std::fprintf(stderr, "%s\n", os_.str().c_str());
    std::fflush(stderr);
    std::abort();
#endif
  }
  template <typename T> Fatal& operator<<(const T& v) { vshim::StreamTo(os_, v); return *this; }
  Fatal& stream() { return *this; }
 private:
  std::ostringstream os_;
};
class Note {  // non-fatal log line
 public:
  Note(const char* file, int line) { os_ << file << ":" << line << "] "; }
  ~Note() { if (!g_quiet_checks) std::fprintf(stderr, "LOG %s\n", os_.str().c_str()); }
  template <typename T> Note& operator<<(const T& v) { vshim::StreamTo(os_, v); return *this; }
  Note& stream() { return *this; }
 private:
  std::ostringstream os_;
};
struct Voidify { template <typename T> void operator&&(T&&) const {} };
template <typename T> struct Printer { static std::string P(const T& v) { std::ostringstream o; vshim::StreamTo(o, v); return o.str(); } };
template <typename T> std::string PrintVal(const T& v) {
  if constexpr (vshim::kStreamable<T>) { std::ostringstream o; vshim::StreamTo(o, v); return o.str(); }
  else return "?";
}
template <typename A, typename B>
std::string OpMsg(const char* e, const A& a, const B& b) { return std::string("Check failed: ") + e + " (" + PrintVal(a) + " vs. " + PrintVal(b) + ") "; }
inline const std::string* Hold(std::string m) { static thread_local std::string held; held = std::move(m); return &held; }
template <typename S> std::string StatusMsg(const S& s) {
  if constexpr (requires { s.ToString(); }) return s.ToString(); else return s.status().ToString();
}
}  // namespace vshim
#define ABSL_CHECK(c) \
  switch (0) case 0: default: \
  (__builtin_expect(!!(c), 1)) ? (void)0 : ::vshim::Voidify() && ::vshim::Fatal(__FILE__, __LINE__, "Check failed: " #c " ").stream()
#define VSHIM_OP(op, a, b) \
  switch (0) case 0: default: \
  if (auto vshim_m_ = [](const auto& vx_, const auto& vy_) -> const std::string* { \
        if (__builtin_expect(!!(vx_ op vy_), 1)) return nullptr; \
        return ::vshim::Hold(::vshim::OpMsg(#a " " #op " " #b, vx_, vy_)); }(a, b); vshim_m_ == nullptr) ; \
  else ::vshim::Voidify() && ::vshim::Fatal(__FILE__, __LINE__, *vshim_m_).stream()
#define ABSL_CHECK_EQ(a, b) VSHIM_OP(==, a, b)
#define ABSL_CHECK_NE(a, b) VSHIM_OP(!=, a, b)
#define ABSL_CHECK_LT(a, b) VSHIM_OP(<, a, b)
#define ABSL_CHECK_LE(a, b) VSHIM_OP(<=, a, b)
#define ABSL_CHECK_GT(a, b) VSHIM_OP(>, a, b)
#define ABSL_CHECK_GE(a, b) VSHIM_OP(>=, a, b)
#define ABSL_CHECK_OK(s) \
  switch (0) case 0: default: \
  if (const auto& vshim_s_ = (s); vshim_s_.ok()) ; \
  else ::vshim::Voidify() && ::vshim::Fatal(__FILE__, __LINE__, "Check failed: " #s " is OK (" + ::vshim::StatusMsg(vshim_s_) + ") ").stream()
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define ABSL_DCHECK_OK(s) ABSL_CHECK_OK(s)
#endif
