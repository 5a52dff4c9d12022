// One formatter for StrCat, StrFormat("%v"), Substitute, StrJoin and CHECK messages.
#ifndef VERIF_SHIM_STRINGIFY_H_
#define VERIF_SHIM_STRINGIFY_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
namespace vshim {
struct Sink {
  std::string* out;
  void Append(std::string_view s) { out->append(s); }
  void Append(size_t n, char c) { out->append(n, c); }
  friend void AbslFormatFlush(Sink* s, std::string_view v) { s->Append(v); }
};
template <typename T, typename = void> struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<Sink&>(), std::declval<const T&>()))>> : std::true_type {};
template <typename T, typename = void> struct HasOstream : std::false_type {};
template <typename T>
struct HasOstream<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type {};
template <typename T>
inline constexpr bool kStreamable = HasStringify<T>::value || HasOstream<T>::value || std::is_enum_v<T>;
inline std::string Num(double v) {  // absl's six-digit float format
  if (std::isnan(v)) return "nan";
  char b[64];
  std::snprintf(b, sizeof b, "%g", v);
  return b;
}
template <typename T> std::string Str(const T& v) {
  using D = std::decay_t<T>;
  if constexpr (HasStringify<D>::value) { std::string s; Sink k{&s}; AbslStringify(k, v); return s; }
  else if constexpr (std::is_same_v<D, bool>) return v ? "1" : "0";
  else if constexpr (std::is_same_v<D, char>) return std::string(1, v);
  else if constexpr (std::is_floating_point_v<D>) return Num(v);
  else if constexpr (std::is_integral_v<D>) return std::to_string(v);
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) { return std::string(std::string_view(v)); }
  else if constexpr (std::is_enum_v<D>) return std::to_string(static_cast<std::underlying_type_t<D>>(v));
  else if constexpr (std::is_pointer_v<D>) { char b[32]; std::snprintf(b, sizeof b, "%p", (const void*)v); return b; }
  else { static_assert(std::is_convertible_v<const T&, std::string>, "not stringifiable"); return std::string(v); }
}
template <typename T> void StreamTo(std::ostream& os, const T& v) {
  if constexpr (HasStringify<T>::value) os << Str(v);
  else if constexpr (HasOstream<T>::value) os << v;
  else if constexpr (std::is_enum_v<T>) os << (long long)v;
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) os << std::string_view(v);
  else os << "?";
}
}
#endif
