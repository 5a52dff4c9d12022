#ifndef VERIF_SHIM_HASH_TESTING_H_
#define VERIF_SHIM_HASH_TESTING_H_
#include <initializer_list>
#include "absl/hash/hash.h"
#include "gtest/gtest.h"
namespace absl {
template <typename C> ::testing::AssertionResult VerifyHashImpl(const C& c) {
  for (const auto& a : c) for (const auto& b : c) {
    using T = std::decay_t<decltype(a)>;
    bool eq = a == b, h = Hash<T>()(a) == Hash<T>()(b);
    if (eq != h) return ::testing::AssertionFailure() << "equality and hash disagree";
  }
  return ::testing::AssertionSuccess();
}
template <typename C> ::testing::AssertionResult VerifyTypeImplementsAbslHashCorrectly(const C& c) { return VerifyHashImpl(c); }
template <typename T> ::testing::AssertionResult VerifyTypeImplementsAbslHashCorrectly(std::initializer_list<T> c) { return VerifyHashImpl(c); }
}
#endif
