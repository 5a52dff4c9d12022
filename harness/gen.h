// Generators shared by the harnesses.
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_
#include "vh.h"
namespace vh {
inline constexpr float kInf = std::numeric_limits<float>::infinity();
inline constexpr float kNan = std::numeric_limits<float>::quiet_NaN();
inline constexpr float kMax = std::numeric_limits<float>::max();
inline constexpr float kMin = std::numeric_limits<float>::min();
// Any float: special values, random bits, log-uniform magnitudes, small integers.
inline float AnyFloat(Rng& r) {
  switch (r.Below(6)) {
    case 0: return r.Of({0.f, -0.f, 1.f, -1.f, kInf, -kInf, kNan, kMax, -kMax, kMin, -kMin, 1e-45f, -1e-45f, 0.5f, 2.f, 1000.f, 0.001f});
    case 1: return std::bit_cast<float>((uint32_t)r());
    case 2: return (float)r.Int(-20, 20);
    case 3: return (float)r.Int(-1000, 1000) / 16.f;
    default: { float v = (float)r.LogReal(1e-30, 1e30); return r.Chance(.5) ? v : -v; }
  }
}
inline float FiniteFloat(Rng& r) { for (;;) { float f = AnyFloat(r); if (std::isfinite(f)) return f; } }
// Magnitudes for which single precision formulas neither overflow nor underflow.
inline float ModerateFloat(Rng& r) {
  switch (r.Below(5)) {
    case 0: return r.Of({0.f, 1.f, -1.f, 2.f, -2.f, 0.5f, 10.f, 100.f});
    case 1: return (float)r.Int(-10, 10);
    case 2: return r.F(-1, 1);
    default: { float v = (float)r.LogReal(1e-4, 1e4); return r.Chance(.5) ? v : -v; }
  }
}
}  // namespace vh
#endif
