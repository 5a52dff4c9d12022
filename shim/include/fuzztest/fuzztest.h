// Small random-sampling stand-in for fuzztest: the domain combinators ink uses
// and FUZZ_TEST as a gtest test over seeded samples.
#ifndef VERIF_SHIM_FUZZTEST_H_
#define VERIF_SHIM_FUZZTEST_H_
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#ifndef VSHIM_FUZZTEST_NO_GTEST
#include "gtest/gtest.h"
#endif
namespace fuzztest {
using Rng = std::mt19937_64;
inline uint64_t Below(Rng& r, uint64_t n) { return n ? r() % n : 0; }
template <typename T> class Domain {
 public:
  using value_type = T;
  Domain() = default;
  template <typename F, std::enable_if_t<std::is_invocable_r_v<T, F, Rng&> && !std::is_base_of_v<Domain<T>, std::decay_t<F>>, int> = 0>
  Domain(F f) : f_(std::make_shared<std::function<T(Rng&)>>(std::move(f))) {}
  T Gen(Rng& r) const { return (*f_)(r); }
 private:
  std::shared_ptr<std::function<T(Rng&)>> f_;
};
template <typename D> using ValueOf = typename std::decay_t<D>::value_type;
template <typename T> T AnyFloat(Rng& r) {
  static const T k[] = {0, -0.f, 1, -1, 0.5, std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(),
                        std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon()};
  switch (Below(r, 4)) {
    case 0: return k[Below(r, sizeof k / sizeof k[0])];
    case 1: return (T)((double)(int64_t)r() / 9.2e18 * 10);
    case 2: return std::ldexp((T)((double)(int64_t)r() / 9.2e18), (int)Below(r, 60) - 30);
    default: {
      if constexpr (sizeof(T) == 4) { uint32_t b = (uint32_t)r(); T f; std::memcpy(&f, &b, 4); return f; }
      else { uint64_t b = r(); T f; std::memcpy(&f, &b, 8); return f; }
    }
  }
}
template <typename T> Domain<T> Arbitrary() {
  return Domain<T>([](Rng& r) -> T {
    if constexpr (std::is_same_v<T, bool>) return r() & 1;
    else if constexpr (std::is_floating_point_v<T>) return AnyFloat<T>(r);
    else if constexpr (std::is_integral_v<T>) { uint64_t v = r(); if (Below(r, 3) == 0) v >>= Below(r, 64); return (T)v; }
    else { std::string s; size_t n = Below(r, 40); for (size_t i = 0; i < n; ++i) s.push_back((char)(Below(r, 3) ? 32 + Below(r, 95) : r())); return T(s); }
  });
}
inline Domain<std::string> String() { return Arbitrary<std::string>(); }
template <typename T> Domain<T> Filter_(std::function<bool(const T&)> p, Domain<T> d) {
  return Domain<T>([p, d](Rng& r) -> T { for (int i = 0; i < 100000; ++i) { T v = d.Gen(r); if (p(v)) return v; } throw std::runtime_error("Filter too strict"); });
}
template <typename F, typename D> auto Filter(F p, D d) { using T = ValueOf<D>; return Filter_<T>([p](const T& v) -> bool { return std::invoke(p, v); }, Domain<T>(d)); }
template <typename T> Domain<T> Finite() { return Filter([](T v) { return std::isfinite(v); }, Arbitrary<T>()); }
template <typename T> Domain<T> Positive() { return Domain<T>([](Rng& r) { for (;;) { T v = std::abs(AnyFloat<T>(r)); if (v > 0 && std::isfinite(v)) return v; } }); }
template <typename T> Domain<T> NonNegative() { return Domain<T>([](Rng& r) { for (;;) { T v = std::abs(AnyFloat<T>(r)); if (v >= 0) return v; } }); }
template <typename T> Domain<T> NonPositive() { return Domain<T>([](Rng& r) { for (;;) { T v = -std::abs(AnyFloat<T>(r)); if (v <= 0) return v; } }); }
template <typename T> Domain<T> InRange(T a, T b) {
  return Domain<T>([a, b](Rng& r) -> T {
    if (Below(r, 12) == 0) return a;
    if (Below(r, 12) == 0) return b;
    if constexpr (std::is_floating_point_v<T>) {
      if (Below(r, 6) == 0 && a <= 0 && b >= 0) return 0;
      if (Below(r, 4) == 0) { for (int i = 0; i < 8; ++i) { T v = AnyFloat<T>(r); if (v >= a && v <= b) return v; } }
      double u = (double)(r() >> 11) / 9007199254740992.0;
      T v = (T)((double)a * (1 - u) + (double)b * u);
      return v < a ? a : v > b ? b : v;
    } else return (T)(a + (T)Below(r, (uint64_t)b - (uint64_t)a + 1));
  });
}
template <typename T> Domain<T> Just(T v) { return Domain<T>([v](Rng&) { return v; }); }
template <typename T> Domain<T> ElementOf(std::initializer_list<T> l) { std::vector<T> v(l); return Domain<T>([v](Rng& r) { return v[Below(r, v.size())]; }); }
template <typename T> Domain<T> ElementOf(std::vector<T> v) { return Domain<T>([v](Rng& r) { return v[Below(r, v.size())]; }); }
template <typename D, typename... Ds> Domain<ValueOf<D>> OneOf(D d, Ds... ds) {
  std::vector<Domain<ValueOf<D>>> v{Domain<ValueOf<D>>(d), Domain<ValueOf<D>>(ds)...};
  return Domain<ValueOf<D>>([v](Rng& r) { return v[Below(r, v.size())].Gen(r); });
}
template <typename F, typename... D> auto Map(F f, D... d) {
  using T = std::decay_t<std::invoke_result_t<F, ValueOf<D>...>>;
  return Domain<T>([=](Rng& r) -> T { std::tuple<ValueOf<D>...> t{d.Gen(r)...}; return std::apply([&](auto&... x) -> T { return std::invoke(f, std::move(x)...); }, t); });
}
template <typename F, typename... D> auto FlatMap(F f, D... d) {
  using T = ValueOf<std::invoke_result_t<F, ValueOf<D>...>>;
  return Domain<T>([=](Rng& r) -> T { std::tuple<ValueOf<D>...> t{d.Gen(r)...}; auto dd = std::apply([&](auto&... x) { return f(x...); }, t); return dd.Gen(r); });
}
template <typename S, typename... D> Domain<S> StructOf(D... d) {
  return Domain<S>([=](Rng& r) -> S { std::tuple<ValueOf<D>...> t{d.Gen(r)...}; return std::apply([](auto&... x) { return S{std::move(x)...}; }, t); });
}
template <typename A, typename B> auto PairOf(A a, B b) { using P = std::pair<ValueOf<A>, ValueOf<B>>; return Domain<P>([=](Rng& r) { auto x = a.Gen(r); auto y = b.Gen(r); return P(std::move(x), std::move(y)); }); }
template <typename... D> auto TupleOf(D... d) { using P = std::tuple<ValueOf<D>...>; return Domain<P>([=](Rng& r) { return P{d.Gen(r)...}; }); }
template <typename D> auto OptionalOf(D d) { using O = std::optional<ValueOf<D>>; return Domain<O>([=](Rng& r) -> O { if (r() & 1) return d.Gen(r); return std::nullopt; }); }
template <typename... D> auto VariantOf(D... d) {
  using V = std::variant<ValueOf<D>...>;
  return Domain<V>([=](Rng& r) -> V {
    std::vector<std::function<V(Rng&)>> fs{[d](Rng& q) { return V(d.Gen(q)); }...};
    return fs[Below(r, fs.size())](r);
  });
}
template <typename... D> auto ArrayOf(D... d) { using A = std::array<std::common_type_t<ValueOf<D>...>, sizeof...(D)>; return Domain<A>([=](Rng& r) { return A{d.Gen(r)...}; }); }
template <std::size_t N, typename D> auto ArrayOf(D d) { using A = std::array<ValueOf<D>, N>; return Domain<A>([=](Rng& r) { A a; for (auto& x : a) x = d.Gen(r); return a; }); }
template <typename C> class ContainerDomain : public Domain<C> {
 public:
  using E = typename C::value_type;
  ContainerDomain(Domain<E> d, bool uniq, size_t lo = 0, size_t hi = 20) : Domain<C>(Make(d, uniq, lo, hi)), d_(d), u_(uniq), lo_(lo), hi_(hi) {}
  ContainerDomain WithSize(size_t n) const { return {d_, u_, n, n}; }
  ContainerDomain WithMinSize(size_t n) const { return {d_, u_, n, std::max(n + 12, hi_)}; }
  ContainerDomain WithMaxSize(size_t n) const { return {d_, u_, std::min(lo_, n), std::min(n, hi_)}; }
 private:
  static Domain<C> Make(Domain<E> d, bool uniq, size_t lo, size_t hi) {
    return Domain<C>([=](Rng& r) {
      size_t n = lo + Below(r, hi - lo + 1);
      C c;
      int tries = 0;
      while (c.size() < n && tries++ < 100000) {
        E e = d.Gen(r);
        if constexpr (requires { e == e; }) if (uniq) { bool dup = false; for (const auto& x : c) dup |= x == e; if (dup) continue; }
        c.insert(c.end(), std::move(e));
      }
      return c;
    });
  }
  Domain<E> d_; bool u_; size_t lo_, hi_;
};
template <typename D> auto VectorOf(D d) { return ContainerDomain<std::vector<ValueOf<D>>>(Domain<ValueOf<D>>(d), false); }
template <typename D> auto UniqueElementsVectorOf(D d) { return ContainerDomain<std::vector<ValueOf<D>>>(Domain<ValueOf<D>>(d), true); }
template <typename C, typename D> auto UniqueElementsContainerOf(D d) { return ContainerDomain<C>(Domain<typename C::value_type>(d), true); }
// Generates strings from the small regexp subset: literals, [a-b..], (..|..), ? * + {m,n}, leading ^ and trailing $.
class Re {
 public:
  explicit Re(std::string s) : s_(std::move(s)) {}
  std::string Gen(Rng& r) const { size_t i = 0; std::string o; Alt(r, i, &o, true); return o; }
 private:
  void Alt(Rng& r, size_t& i, std::string* o, bool on) const {
    std::vector<size_t> starts{i};
    size_t j = i;
    std::string dummy;
    for (;;) { Seq(r, j, &dummy, false); if (j < s_.size() && s_[j] == '|') { ++j; starts.push_back(j); continue; } break; }
    if (on) { size_t k = starts[Below(r, starts.size())]; Seq(r, k, o, true); }
    i = j;
  }
  void Seq(Rng& r, size_t& i, std::string* o, bool on) const {
    while (i < s_.size() && s_[i] != '|' && s_[i] != ')') {
      if (s_[i] == '^' || s_[i] == '$') { ++i; continue; }
      size_t a = i;
      std::string dummy;
      Atom(r, i, &dummy, false);
      unsigned lo = 1, hi = 1;
      if (i < s_.size()) {
        if (s_[i] == '?') { lo = 0; ++i; } else if (s_[i] == '*') { lo = 0; hi = 12; ++i; } else if (s_[i] == '+') { hi = 12; ++i; }
        else if (s_[i] == '{') { char* e; lo = strtoul(&s_[i + 1], &e, 10); hi = lo; if (*e == ',') hi = strtoul(e + 1, &e, 10); i = e - s_.data() + 1; }
      }
      if (on) { unsigned n = lo + Below(r, hi - lo + 1); for (unsigned k = 0; k < n; ++k) { size_t b = a; Atom(r, b, o, true); } }
    }
  }
  void Atom(Rng& r, size_t& i, std::string* o, bool on) const {
    if (s_[i] == '(') { ++i; Alt(r, i, o, on); ++i; return; }
    if (s_[i] == '[') {
      std::string set; ++i;
      while (s_[i] != ']') { if (s_[i + 1] == '-' && s_[i + 2] != ']') { for (char c = s_[i]; c <= s_[i + 2]; ++c) set += c; i += 3; } else set += s_[i++]; }
      ++i;
      if (on) *o += set[Below(r, set.size())];
      return;
    }
    if (s_[i] == '\\') ++i;
    if (on) *o += s_[i];
    ++i;
  }
  std::string s_;
};
inline Domain<std::string> InRegexp(std::string_view re) { Re x{std::string(re)}; return Domain<std::string>([x](Rng& r) { return x.Gen(r); }); }
#ifndef VSHIM_FUZZTEST_NO_GTEST
template <typename... A> struct Reg {
  using Fn = void (*)(A...);
  std::shared_ptr<std::function<void(Rng&)>> run = std::make_shared<std::function<void(Rng&)>>();
  Fn fn;
  struct T : ::testing::Test {
    std::shared_ptr<std::function<void(Rng&)>> run; 
    explicit T(std::shared_ptr<std::function<void(Rng&)>> r) : run(r) {}
    void TestBody() override {
      const char* n = std::getenv("VSHIM_FUZZ_N"); int N = n ? atoi(n) : 200;
      Rng r(12345);
      for (int i = 0; i < N && !HasFailure(); ++i) (*run)(r);
    }
  };
  Reg(const char* s, const char* n, Fn f, const char* file, int line) : fn(f) {
    if constexpr ((... && (std::is_arithmetic_v<std::decay_t<A>> || std::is_same_v<std::decay_t<A>, std::string>)))
      *run = [f](Rng& r) { std::tuple<std::decay_t<A>...> t{Arbitrary<std::decay_t<A>>().Gen(r)...}; std::apply([&](auto&... x) { f(x...); }, t); };
    auto keep = run;
    // The suite may also contain TESTs, so the fixture class must be testing::Test.
    ::testing::RegisterTest(s, n, nullptr, nullptr, file, line, [keep]() -> ::testing::Test* { return new T(keep); });
  }
  template <typename... D> Reg& WithDomains(D... d) {
    Fn f = fn;
    *run = [f, d...](Rng& r) { std::tuple<ValueOf<D>...> t{d.Gen(r)...}; std::apply([&](auto&... x) { f(std::move(x)...); }, t); };
    return *this;
  }
};
template <typename... A> Reg<A...> MakeReg(const char* s, const char* n, void (*f)(A...), const char* file, int line) { return Reg<A...>(s, n, f, file, line); }
#define FUZZ_TEST(suite, fn) [[maybe_unused]] static auto vshim_reg_##suite##_##fn = ::fuzztest::MakeReg(#suite, #fn, fn, __FILE__, __LINE__)
#endif
}  // namespace fuzztest
#endif
