#ifndef VERIF_SHIM_STATUS_H_
#define VERIF_SHIM_STATUS_H_
#include <ostream>
#include <string>
#include "absl/base/attributes.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled, kUnknown, kInvalidArgument, kDeadlineExceeded, kNotFound, kAlreadyExists, kPermissionDenied, kResourceExhausted, kFailedPrecondition, kAborted, kOutOfRange, kUnimplemented, kInternal, kUnavailable, kDataLoss, kUnauthenticated };
std::string StatusCodeToString(StatusCode c);
inline std::ostream& operator<<(std::ostream& o, StatusCode c) { return o << StatusCodeToString(c); }
class [[nodiscard]] Status final {
 public:
  Status() = default;
  Status(StatusCode c, string_view m) : code_(c), msg_(c == StatusCode::kOk ? "" : std::string(m)) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  string_view message() const { return msg_; }
  int raw_code() const { return (int)code_; }
  std::string ToString() const { return ok() ? "OK" : StatusCodeToString(code_) + ": " + msg_; }
  void IgnoreError() const {}
  void Update(const Status& s) { if (ok()) *this = s; }
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_ && a.msg_ == b.msg_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.ToString(); }
 private:
  StatusCode code_ = StatusCode::kOk;
  std::string msg_;
};
inline Status OkStatus() { return Status(); }
#define VSHIM_E(N) inline Status N##Error(string_view m) { return Status(StatusCode::k##N, m); } inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
VSHIM_E(Cancelled) VSHIM_E(Unknown) VSHIM_E(InvalidArgument) VSHIM_E(NotFound) VSHIM_E(AlreadyExists) VSHIM_E(ResourceExhausted) VSHIM_E(FailedPrecondition) VSHIM_E(Aborted) VSHIM_E(OutOfRange) VSHIM_E(Unimplemented) VSHIM_E(Internal) VSHIM_E(Unavailable) VSHIM_E(DataLoss)
#undef VSHIM_E
}
#endif
