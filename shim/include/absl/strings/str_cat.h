#ifndef VERIF_SHIM_STR_CAT_H_
#define VERIF_SHIM_STR_CAT_H_
#include "absl/strings/string_view.h"
#include "absl/strings/vshim_stringify.h"
namespace absl {
template <typename... A> std::string StrCat(const A&... a) { std::string s; (s.append(vshim::Str(a)), ...); return s; }
template <typename... A> void StrAppend(std::string* d, const A&... a) { (d->append(vshim::Str(a)), ...); }
}
#endif
