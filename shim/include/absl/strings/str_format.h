#ifndef VERIF_SHIM_STR_FORMAT_H_
#define VERIF_SHIM_STR_FORMAT_H_
#include <cstdlib>
#include <initializer_list>
#include <vector>
#include "absl/strings/string_view.h"
#include "absl/strings/vshim_stringify.h"
namespace vshim {
struct FArg {
  enum K { kInt, kUint, kDbl, kStr, kChar, kPtr } k;
  long long i = 0; unsigned long long u = 0; double d = 0; const void* p = nullptr;
  std::string v;  // %v rendering, %s rendering
  template <typename T> FArg(const T& x) {
    using D = std::decay_t<T>;
    if constexpr (std::is_same_v<D, bool>) { k = kInt; i = x; v = x ? "true" : "false"; }
    else if constexpr (HasStringify<D>::value) { k = kStr; v = Str(x); }
    else if constexpr (std::is_same_v<D, char>) { k = kChar; i = x; v = std::string(1, x); }
    else if constexpr (std::is_floating_point_v<D>) { k = kDbl; d = x; v = Num(x); }
    else if constexpr (std::is_integral_v<D> && std::is_signed_v<D>) { k = kInt; i = x; v = std::to_string(i); }
    else if constexpr (std::is_integral_v<D>) { k = kUint; u = x; v = std::to_string(u); }
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) { k = kStr; v = std::string(std::string_view(x)); }
    else if constexpr (std::is_enum_v<D>) { k = kInt; i = (long long)x; v = std::to_string(i); }
    else { k = kPtr; p = (const void*)x; }
  }
};
std::string FormatImpl(std::string_view f, const FArg* a, size_t n);
}
namespace absl {
template <typename... A> std::string StrFormat(string_view f, const A&... a) {
  std::vector<vshim::FArg> v; v.reserve(sizeof...(A)); (v.emplace_back(a), ...);
  return vshim::FormatImpl(f, v.data(), v.size());
}
template <typename... A> std::string& StrAppendFormat(std::string* d, string_view f, const A&... a) { *d += StrFormat(f, a...); return *d; }
}
#endif
