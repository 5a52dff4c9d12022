#ifndef VERIF_SHIM_MATCH_H_
#define VERIF_SHIM_MATCH_H_
#include "absl/strings/ascii.h"
#include "absl/strings/string_view.h"
namespace absl {
inline bool StartsWith(string_view t, string_view p) { return t.substr(0, p.size()) == p; }
inline bool EndsWith(string_view t, string_view p) { return t.size() >= p.size() && t.substr(t.size() - p.size()) == p; }
inline bool StrContains(string_view t, string_view p) { return t.find(p) != string_view::npos; }
inline bool EqualsIgnoreCase(string_view a, string_view b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (ascii_tolower(a[i]) != ascii_tolower(b[i])) return false;
  return true;
}
inline bool StartsWithIgnoreCase(string_view t, string_view p) { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p); }
}
#endif
