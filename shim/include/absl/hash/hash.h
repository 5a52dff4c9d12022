#ifndef VERIF_SHIM_HASH_H_
#define VERIF_SHIM_HASH_H_
#include <array>
#include <bit>
#include <cstdint>
#include <memory>
#include <optional>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace vshim {
extern thread_local uint64_t g_hash_salt;  // varied by monitors: order of iteration must not matter
struct HS {
  uint64_t h;
  template <typename... T> static HS combine(HS s, const T&... v) { ((s = Add(std::move(s), v)), ...); return s; }
  template <typename T> static HS combine_contiguous(HS s, const T* p, size_t n) { for (size_t i = 0; i < n; ++i) s = Add(std::move(s), p[i]); return s; }
  static HS Mix(HS s, uint64_t v) { uint64_t x = s.h ^ (v + 0x9e3779b97f4a7c15ull + (s.h << 6) + (s.h >> 2)); x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; return {x}; }
  template <typename T> static HS Add(HS s, const T& v) {
    using D = std::decay_t<T>;
    if constexpr (requires { AbslHashValue(std::move(s), v); }) return AbslHashValue(std::move(s), v);
    else if constexpr (std::is_enum_v<D>) return Mix(s, (uint64_t)v);
    else if constexpr (std::is_floating_point_v<D>) return Mix(s, v == 0 ? 0 : std::bit_cast<uint64_t>((double)v));
    else if constexpr (std::is_integral_v<D>) return Mix(s, (uint64_t)v);
    else if constexpr (std::is_pointer_v<D>) return Mix(s, (uint64_t)(uintptr_t)v);
    else if constexpr (std::is_convertible_v<const D&, std::string_view>) { std::string_view x(v); s = Mix(s, x.size()); for (char c : x) s = Mix(s, (unsigned char)c); return s; }
    else return Other(s, v);
  }
  template <typename T> static HS Other(HS s, const std::optional<T>& v) { s = Mix(s, v.has_value()); return v ? Add(s, *v) : s; }
  template <typename A, typename B> static HS Other(HS s, const std::pair<A, B>& v) { return Add(Add(s, v.first), v.second); }
  template <typename... A> static HS Other(HS s, const std::tuple<A...>& v) { return std::apply([&](auto&... x) { return combine(s, x...); }, v); }
  template <typename... A> static HS Other(HS s, const std::variant<A...>& v) { s = Mix(s, v.index()); return std::visit([&](auto& x) { return Add(s, x); }, v); }
  template <typename T> static HS Other(HS s, const std::vector<T>& v) { s = Mix(s, v.size()); for (auto& x : v) s = Add(s, x); return s; }
  template <typename T, size_t N> static HS Other(HS s, const std::array<T, N>& v) { for (auto& x : v) s = Add(s, x); return s; }
};
}
namespace absl {
template <typename T> struct Hash { size_t operator()(const T& v) const { return vshim::HS::combine(vshim::HS{0x1234567}, v).h; } };
template <typename... T> size_t HashOf(const T&... v) { return vshim::HS::combine(vshim::HS{0x1234567}, v...).h; }
}
#endif
