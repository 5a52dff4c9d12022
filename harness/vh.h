// Harness core: seeded cases, monitors that raise Violation, event counters,
// signatures of what was observed. One process runs a shard of the cases of one
// property; see tools/check.py.
#ifndef VERIF_VH_H_
#define VERIF_VH_H_
#include <array>
#include <bit>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include "absl/log/absl_check.h"
namespace vh {
inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct Rng {
  using result_type = uint64_t;
  uint64_t s = 1;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { return Mix(s += 0x632be59bd9b4e019ull); }
  uint64_t Below(uint64_t n) { return n ? (*this)() % n : 0; }
  int Int(int a, int b) { return a + (int)Below((uint64_t)((int64_t)b - a + 1)); }  // inclusive
  bool Chance(double p) { return U() < p; }
  double U() { return (double)((*this)() >> 11) / 9007199254740992.0; }  // [0,1)
  double Real(double a, double b) { return a + (b - a) * U(); }
  float F(double a, double b) { float f = (float)Real(a, b); return f < (float)a ? (float)a : f > (float)b ? (float)b : f; }
  double LogReal(double a, double b) { return std::exp(Real(std::log(a), std::log(b))); }
  template <typename T> const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
  template <typename T, size_t N> const T& Pick(const T (&v)[N]) { return v[Below(N)]; }
  template <typename T> T Of(std::initializer_list<T> l) { return l.begin()[Below(l.size())]; }
};
struct Violation : std::runtime_error {
  std::string key;  // stable name of what failed
  Violation(std::string k, std::string m) : std::runtime_error(std::move(m)), key(std::move(k)) {}
};
struct Skip {};
template <typename T> void Put(std::ostream& o, const T& v) {
  if constexpr (std::is_floating_point_v<T>) { char b[40]; std::snprintf(b, sizeof b, sizeof(T) == 4 ? "%.9g" : "%.17g", (double)v); o << b; }
  else if constexpr (std::is_same_v<T, bool>) o << (v ? "true" : "false");
  else vshim::StreamTo(o, v);
}
struct Arg {  // a value to print, by reference; light at the call sites
  const void* p;
  void (*f)(std::ostream&, const void*);
  static void S(std::ostream& o, const void* q) { o << static_cast<const char*>(q); }
  template <size_t N> Arg(const char (&v)[N]) : p(v), f(&S) {}
  template <typename T> Arg(const T& v) : p(&v), f([](std::ostream& o, const void* q) { Put(o, *static_cast<const T*>(q)); }) {}
};
__attribute__((noinline)) inline std::string CatArgs(std::initializer_list<Arg> l) { std::ostringstream o; for (const Arg& a : l) a.f(o, a.p); return o.str(); }
template <typename... A> std::string Cat(const A&... a) { return CatArgs({Arg(a)...}); }
[[noreturn]] __attribute__((noinline, cold)) inline void FailArgs(const char* key, std::initializer_list<Arg> l) { throw Violation(key, CatArgs(l)); }
struct Ctx {
  Rng rng;
  std::string property;
  uint64_t seed = 0, idx = 0;
  bool thorough = false;
  // Observations.
  uint64_t sig = 0x12345;
  bool nontrivial = false;
  std::string sample;  // set when want_sample
  bool want_sample = false;
  std::map<std::string, uint64_t>* counters = nullptr;
  void Count(const char* n, uint64_t k = 1) { (*counters)[n] += k; }
  template <typename T> void Sig(const T& v) {  // folds an observation into this case's signature
    uint64_t x;
    if constexpr (std::is_floating_point_v<T>) x = v == 0 ? 0 : std::bit_cast<uint64_t>((double)v);
    else if constexpr (std::is_enum_v<T>) x = (uint64_t)v;
    else if constexpr (std::is_arithmetic_v<T>) x = (uint64_t)v;
    else x = std::hash<std::string_view>()(std::string_view(v));
    sig = Mix(sig ^ x);
  }
  void NonTrivial() { nontrivial = true; }
  template <typename... A> void Sample(const A&... a) { if (want_sample) sample = Cat(a...); }
  template <typename... A> [[noreturn]] void Fail(const char* key, const A&... a) { FailArgs(key, {Arg(a)...}); }
};
#define VH_REQUIRE(ctx, cond, key, ...) do { if (!(cond)) ::vh::FailArgs(key, {::vh::Arg("monitor: " #cond " is false; "), ##__VA_ARGS__}); } while (0)
using CaseFn = std::function<void(Ctx&)>;
struct Registry { static std::map<std::string, CaseFn>& M() { static std::map<std::string, CaseFn> m; return m; } };
struct Reg { Reg(const char* n, CaseFn f) { Registry::M()[n] = std::move(f); } };
#define VH_PROPERTY(id) static void vh_case_##id(::vh::Ctx& c); static ::vh::Reg vh_reg_##id(#id, vh_case_##id); static void vh_case_##id(::vh::Ctx& c)
// Runs f; true if it ended in a failed CHECK.
template <typename F> bool CheckFails(F&& f) { try { f(); return false; } catch (const vshim::CheckFailure&) { return true; } }
// Bit equality, with all NaNs equal.
inline bool SameF(float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b) || (std::isnan(a) && std::isnan(b)); }
inline int64_t UlpIdx(float f) { int32_t i = std::bit_cast<int32_t>(f); return i < 0 ? (int64_t)INT32_MIN - i : i; }
inline int64_t Ulps(float a, float b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b) ? 0 : INT64_MAX; int64_t d = UlpIdx(a) - UlpIdx(b); return d < 0 ? -d : d; }
}  // namespace vh
#endif
