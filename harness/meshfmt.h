// Vertex formats of strokes, mostly ones that can be rendered.
#ifndef VERIF_MESHFMT_H_
#define VERIF_MESHFMT_H_
#include "ink/geometry/mesh_format.h"
#include "vh.h"
namespace vh {
using AType = ink::MeshFormat::AttributeType;
using AId = ink::MeshFormat::AttributeId;
struct Attr { AType type; AId id; };
inline std::vector<Attr> RandFormat(Rng& r) {
  auto pick = [&](std::initializer_list<AType> good, std::initializer_list<AType> other) { return r.Chance(.04) ? r.Of(other) : r.Of(good); };
  bool mixed = r.Chance(.06);
  auto pair = [&](AType wide_v, AType wide_s, AType narrow_v, AType narrow_s, AId v, AId s) {
    bool w = r.Chance(.4);
    return std::vector<Attr>{{w ? wide_v : narrow_v, v}, {(mixed ? r.Chance(.5) : w) ? wide_s : narrow_s, s}};
  };
  using T = AType;
  std::vector<std::vector<Attr>> groups;
  groups.push_back(pair(T::kFloat2PackedIn1Float, T::kFloat1Unpacked, T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat1PackedIn1UnsignedByte, AId::kPosition, AId::kOpacityShift));
  groups.push_back(pair(T::kFloat2Unpacked, T::kFloat1Unpacked, T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat1PackedIn1UnsignedByte, AId::kSideDerivative, AId::kSideLabel));
  groups.push_back(pair(T::kFloat2Unpacked, T::kFloat1Unpacked, T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat1PackedIn1UnsignedByte, AId::kForwardDerivative, AId::kForwardLabel));
  if (r.Chance(.7)) groups.push_back({{pick({T::kFloat3Unpacked, T::kFloat3PackedIn4UnsignedBytes_XYZ10}, {T::kFloat3PackedIn1Float, T::kFloat3PackedIn2Floats, T::kFloat2Unpacked}), AId::kColorShiftHsl}});
  if (r.Chance(.8)) groups.push_back({{pick({T::kFloat2Unpacked, T::kFloat2PackedIn4UnsignedBytes_X12_Y20}, {T::kFloat2PackedIn1Float, T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat3Unpacked}), AId::kSurfaceUv}});
  int extra = r.Chance(.3) ? r.Int(1, 3) : 0;
  for (int i = 0; i < extra; ++i) groups.push_back({{r.Of({T::kFloat1Unpacked, T::kFloat1PackedIn1UnsignedByte, T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat3Unpacked, T::kFloat4PackedIn1Float}), (AId)((int)AId::kCustom0 + i)}});
  if (r.Chance(.5)) for (size_t i = groups.size(); i > 1; --i) std::swap(groups[i - 1], groups[r.Below(i)]);
  std::vector<Attr> all;
  const bool pad = mixed && r.Chance(.7);
  for (auto& g : groups) {
    if (g.size() == 2 && r.Chance(.02)) std::swap(g[0], g[1]);
    for (const Attr& a : g) if (!r.Chance(.012)) all.push_back(a);
    // Formats whose only fault is an odd pair of types, as padding bytes make
    // up for its odd size.
    if (!pad) continue;
    int size = 0;
    for (const Attr& a : all) size += ink::MeshFormat::PackedAttributeSize(a.type);
    for (; size % 4 != 0 && extra < 10; ++size) all.push_back({T::kFloat1PackedIn1UnsignedByte, (AId)((int)AId::kCustom0 + extra++)});
  }
  if (r.Chance(.05) && all.size() > 1) std::swap(all[r.Below(all.size())], all[r.Below(all.size())]);
  return all;
}
}  // namespace vh
#endif
