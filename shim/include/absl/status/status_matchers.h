#ifndef VERIF_SHIM_STATUS_MATCHERS_H_
#define VERIF_SHIM_STATUS_MATCHERS_H_
#include "gmock/gmock.h"
#include "absl/status/statusor.h"
namespace absl_testing {
inline const absl::Status& GetS(const absl::Status& s) { return s; }
template <typename T> const absl::Status& GetS(const absl::StatusOr<T>& s) { return s.status(); }
MATCHER(IsOk, "is OK") { return GetS(arg).ok(); }
MATCHER_P(StatusIs, code, "") { return ::testing::ExplainMatchResult(::testing::Matcher<absl::StatusCode>(code), GetS(arg).code(), result_listener); }
MATCHER_P2(StatusIs, code, m, "") { return ::testing::ExplainMatchResult(::testing::Matcher<absl::StatusCode>(code), GetS(arg).code(), result_listener) && ::testing::ExplainMatchResult(m, std::string(GetS(arg).message()), result_listener); }
MATCHER_P(IsOkAndHolds, m, "") { return arg.ok() && ::testing::ExplainMatchResult(::testing::SafeMatcherCast<const typename std::decay_t<decltype(arg)>::value_type&>(m), *arg, result_listener); }
}
#endif
