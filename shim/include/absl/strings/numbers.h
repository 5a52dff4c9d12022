#ifndef VERIF_SHIM_NUMBERS_H_
#define VERIF_SHIM_NUMBERS_H_
#include <charconv>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
template <typename I> bool SimpleAtoi(string_view s, I* out) {
  *out = 0;
  while (!s.empty() && (s.front() == ' ' || (s.front() >= 9 && s.front() <= 13))) s.remove_prefix(1);
  while (!s.empty() && (s.back() == ' ' || (s.back() >= 9 && s.back() <= 13))) s.remove_suffix(1);
  if (!s.empty() && s.front() == '+') { s.remove_prefix(1); if (!s.empty() && s.front() == '-') return false; }
  if (s.empty()) return false;
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
  return r.ec == std::errc() && r.ptr == s.data() + s.size();
}
}
#endif
