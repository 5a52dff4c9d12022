// Out-of-line parts of the abseil stand-ins.
#include <cstdint>
#include <string>
#include "absl/log/absl_check.h"
#include "absl/status/status.h"
#include "absl/strings/str_format.h"
#include "absl/strings/substitute.h"
namespace vshim {
thread_local bool g_quiet_checks = false;
thread_local uint64_t g_hash_salt = 0;
std::string FormatImpl(std::string_view f, const FArg* a, size_t n) {
  std::string o; size_t k = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { o += f[i]; continue; }
    if (i + 1 < f.size() && f[i + 1] == '%') { o += '%'; ++i; continue; }
    std::string spec = "%"; ++i;
    while (i < f.size() && (std::string_view("-+ #0123456789.*hlzjtq").find(f[i]) != std::string_view::npos)) { if (std::string_view("hlzjtq").find(f[i]) == std::string_view::npos) spec += f[i]; ++i; }
    if (i >= f.size()) break;
    char c = f[i];
    if (k >= n) { o += "<missing>"; continue; }
    const FArg& x = a[k++];
    char b[512];
    auto dbl = [&] { return x.k == FArg::kDbl ? x.d : x.k == FArg::kUint ? (double)x.u : (double)x.i; };
    switch (c) {
      case 'v': o += x.v; break;
      case 's': spec += 's'; if (spec == "%s") o += x.v; else { std::snprintf(b, sizeof b, spec.c_str(), x.v.c_str()); o += b; } break;
      case 'c': o += (char)x.i; break;
      case 'd': case 'i': case 'x': case 'X': case 'u': case 'o':
        if (x.k == FArg::kUint) { spec += "ll"; spec += (c == 'd' || c == 'i') ? 'u' : c; std::snprintf(b, sizeof b, spec.c_str(), x.u); }
        else { spec += "ll"; spec += c; std::snprintf(b, sizeof b, spec.c_str(), x.i); }
        o += b; break;
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a': case 'A':
        spec += c; std::snprintf(b, sizeof b, spec.c_str(), dbl()); o += b; break;
      case 'p': std::snprintf(b, sizeof b, "%p", x.p); o += b; break;
      default: o += c;
    }
  }
  return o;
}
}  // namespace vshim
namespace absl {
std::string StatusCodeToString(StatusCode c) {
  static const char* const k[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  return (int)c >= 0 && (int)c < 17 ? k[(int)c] : "";
}
namespace vshim_internal {
std::string SubstituteImpl(string_view f, const std::string* a, size_t n) {
  std::string o;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '$' && i + 1 < f.size()) {
      if (f[i + 1] >= '0' && f[i + 1] <= '9') { size_t k = f[i + 1] - '0'; if (k < n) o += a[k]; ++i; continue; }
      if (f[i + 1] == '$') { o += '$'; ++i; continue; }
    }
    o += f[i];
  }
  return o;
}
}
}
