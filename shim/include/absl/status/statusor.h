#ifndef VERIF_SHIM_STATUSOR_H_
#define VERIF_SHIM_STATUSOR_H_
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/log/absl_check.h"
#include "absl/status/status.h"
namespace absl {
template <typename T> class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : st_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  StatusOr(const Status& s) : st_(s) { ABSL_CHECK(!s.ok()) << "OK status in StatusOr"; }
  StatusOr(Status&& s) : st_(std::move(s)) { ABSL_CHECK(!st_.ok()) << "OK status in StatusOr"; }
  template <typename U = T, std::enable_if_t<std::is_constructible_v<T, U&&> && std::is_convertible_v<U&&, T> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status>, int> = 0>
  StatusOr(U&& u) : v_(std::forward<U>(u)) {}
  template <typename U, std::enable_if_t<!std::is_same_v<U, T> && std::is_constructible_v<T, const U&>, int> = 0>
  StatusOr(const StatusOr<U>& o) : st_(o.status()) { if (o.ok()) v_.emplace(*o); }
  template <typename U, std::enable_if_t<!std::is_same_v<U, T> && std::is_constructible_v<T, U&&>, int> = 0>
  StatusOr(StatusOr<U>&& o) : st_(o.status()) { if (o.ok()) v_.emplace(*std::move(o)); }
  bool ok() const { return st_.ok(); }
  const Status& status() const& { return st_; }
  Status status() && { return std::move(st_); }
  const T& value() const& { Need(); return *v_; }
  T& value() & { Need(); return *v_; }
  T&& value() && { Need(); return *std::move(v_); }
  const T& operator*() const& { Need(); return *v_; }
  T& operator*() & { Need(); return *v_; }
  T&& operator*() && { Need(); return *std::move(v_); }
  const T* operator->() const { Need(); return &*v_; }
  T* operator->() { Need(); return &*v_; }
  template <typename U> T value_or(U&& u) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(u)); }
  template <typename U> T value_or(U&& u) && { return ok() ? *std::move(v_) : static_cast<T>(std::forward<U>(u)); }
  void IgnoreError() const {}
  friend bool operator==(const StatusOr& a, const StatusOr& b) { return a.ok() && b.ok() ? *a == *b : a.st_ == b.st_; }
 private:
  void Need() const { ABSL_CHECK(v_.has_value()) << "bad StatusOr access: " << st_.ToString(); }
  Status st_;
  std::optional<T> v_;
};
}
#endif
