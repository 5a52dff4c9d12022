#ifndef VERIF_SHIM_STR_JOIN_H_
#define VERIF_SHIM_STR_JOIN_H_
#include <initializer_list>
#include <iterator>
#include "absl/strings/str_cat.h"
namespace absl {
template <typename R, typename F> std::string StrJoin(const R& r, string_view sep, F&& f) {
  std::string s; bool first = true;
  for (const auto& x : r) { if (!first) s.append(sep); first = false; f(&s, x); }
  return s;
}
template <typename R> std::string StrJoin(const R& r, string_view sep) {
  std::string s; bool first = true;
  for (const auto& x : r) { if (!first) s.append(sep); first = false; s.append(vshim::Str(x)); }
  return s;
}
template <typename I> std::string StrJoin(I b, I e, string_view sep) {
  std::string s; bool first = true;
  for (; b != e; ++b) { if (!first) s.append(sep); first = false; s.append(vshim::Str(*b)); }
  return s;
}
template <typename T> std::string StrJoin(std::initializer_list<T> r, string_view sep) {
  std::string s; bool first = true;
  for (const auto& x : r) { if (!first) s.append(sep); first = false; s.append(vshim::Str(x)); }
  return s;
}
}
#endif
