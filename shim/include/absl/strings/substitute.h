#ifndef VERIF_SHIM_SUBSTITUTE_H_
#define VERIF_SHIM_SUBSTITUTE_H_
#include <vector>
#include "absl/strings/string_view.h"
#include "absl/strings/vshim_stringify.h"
namespace absl {
namespace vshim_internal { std::string SubstituteImpl(string_view f, const std::string* a, size_t n); 
template <typename T> std::string SubStr(const T& v) { if constexpr (std::is_same_v<std::decay_t<T>, bool>) return v ? "true" : "false"; else return vshim::Str(v); } }
template <typename... A> std::string Substitute(string_view f, const A&... a) {
  std::vector<std::string> v; (v.push_back(vshim_internal::SubStr(a)), ...);
  return vshim_internal::SubstituteImpl(f, v.data(), v.size());
}
}
#endif
