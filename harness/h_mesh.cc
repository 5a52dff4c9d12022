// G06 formats and creation; G07 packing; G08 mutable meshes and conversion;
// G09 partitioned meshes; G10 spatial queries.
#include "vh_main.h"
#include "geo.h"
#include <algorithm>
#include <optional>
#include <set>
#include "absl/hash/hash.h"
#include "ink/geometry/internal/algorithms.h"
#include "ink/geometry/internal/static_rtree.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
using namespace vh;
using namespace ink;

namespace {
using Type = MeshFormat::AttributeType;
using Id = MeshFormat::AttributeId;
using Ix = MeshFormat::IndexFormat;
// From the documentation of MeshFormat::AttributeType: components, bits, bytes when packed, packed into floats.
struct TI { Type t; int n; std::array<int, 4> bits; int bytes; bool as_float; int left_bits; };
const TI kTypes[] = {
    {Type::kFloat1Unpacked, 1, {}, 4, false, 0}, {Type::kFloat1PackedIn1UnsignedByte, 1, {8}, 1, false, 0},
    {Type::kFloat2Unpacked, 2, {}, 8, false, 0}, {Type::kFloat2PackedIn1Float, 2, {12, 12}, 4, true, 0},
    {Type::kFloat2PackedIn3UnsignedBytes_XY12, 2, {12, 12}, 3, false, 0},
    {Type::kFloat2PackedIn4UnsignedBytes_X12_Y20, 2, {12, 20}, 4, false, 0},
    {Type::kFloat3Unpacked, 3, {}, 12, false, 0}, {Type::kFloat3PackedIn1Float, 3, {8, 8, 8}, 4, true, 0},
    {Type::kFloat3PackedIn2Floats, 3, {16, 16, 16}, 8, true, 0},
    {Type::kFloat3PackedIn4UnsignedBytes_XYZ10, 3, {10, 10, 10}, 4, false, 2},
    {Type::kFloat4Unpacked, 4, {}, 16, false, 0}, {Type::kFloat4PackedIn1Float, 4, {6, 6, 6, 6}, 4, true, 0},
    {Type::kFloat4PackedIn2Floats, 4, {12, 12, 12, 12}, 8, true, 0}, {Type::kFloat4PackedIn3Floats, 4, {18, 18, 18, 18}, 12, true, 0}};
const TI& Info(Type t) { return kTypes[(int)t]; }
bool Packed(Type t) { return Info(t).bits[0] != 0; }
using Attrs = std::vector<std::pair<Type, Id>>;
Type RandType(Rng& r, int comps = 0) { for (;;) { const TI& t = r.Pick(kTypes); if (!comps || t.n == comps) return t.t; } }
Attrs RandAttrs(Rng& r, int max_n = 8) {
  int n = r.Int(1, max_n);
  std::vector<int> ids;
  for (int i = 1; i < 19; ++i) ids.push_back(i);
  for (size_t i = ids.size() - 1; i > 0; --i) std::swap(ids[i], ids[r.Below(i + 1)]);
  Attrs a;
  int pos = r.Int(0, n - 1);
  for (int i = 0; i < n; ++i) a.push_back(i == pos ? std::pair(RandType(r, 2), Id::kPosition) : std::pair(RandType(r), (Id)ids[i]));
  return a;
}
std::string ShowA(const Attrs& a) { std::string s; for (auto& [t, i] : a) s += Cat("{", (int)t, ",", (int)i, "}"); return s; }
Attrs Of(const MeshFormat& f) { Attrs a; for (auto& x : f.Attributes()) a.push_back({x.type, x.id}); return a; }
void CheckFormat(Ctx& c, const MeshFormat& f, const Attrs& a, Ix ix) {
  VH_REQUIRE(c, f.Attributes().size() == a.size(), "format-attributes", ShowA(a));
  int u = 0, p = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    const auto& x = f.Attributes()[i]; const TI& t = Info(a[i].first);
    VH_REQUIRE(c, x.type == a[i].first && x.id == a[i].second, "format-attributes", i, " ", ShowA(a));
    VH_REQUIRE(c, x.unpacked_offset == u && x.packed_offset == p && x.unpacked_width == 4 * t.n && x.packed_width == t.bytes, "format-layout", i, " of ", ShowA(a), ": ", x.unpacked_offset, " ", x.packed_offset, " ", (int)x.unpacked_width, " ", (int)x.packed_width);
    u += 4 * t.n; p += t.bytes;
    if (a[i].second == Id::kPosition) VH_REQUIRE(c, f.PositionAttributeIndex() == i, "format-position", ShowA(a));
  }
  VH_REQUIRE(c, f.UnpackedVertexStride() == u && f.PackedVertexStride() == p, "format-stride", ShowA(a), " ", f.UnpackedVertexStride(), " ", f.PackedVertexStride());
  VH_REQUIRE(c, f.GetIndexFormat() == ix && f.UnpackedIndexStride() == (ix == Ix::k16BitUnpacked16BitPacked ? 2 : 4), "format-index", (int)ix);
}
// Values of one component: what it looks like is drawn once per component.
std::vector<float> RandComponent(Rng& r, int n, bool nasty) {
  std::vector<float> v(n);
  int kind = r.Below(nasty ? 9 : 5);
  float base = 0, range = 1;
  switch (kind) {
    case 0: base = r.F(-10, 10); range = 0; break;
    case 1: range = (float)r.LogReal(1e-6, 1e6); base = r.F(-2, 2) * range; break;
    case 2: base = ModerateFloat(r); range = (float)r.LogReal(1e-4, 1e4); break;
    case 3: base = (float)r.Int(-100, 100); range = (float)r.Int(0, 4095); break;
    case 4: base = (float)(r.LogReal(1, 1e5)); range = (float)r.LogReal(1e-3, 10); break;
    case 5: base = 0; range = 1e-45f * (float)r.Int(0, 9000); break;  // subnormal ranges
    case 6: base = r.Chance(.5) ? 0 : (float)r.LogReal(1e-40, 1e-36); range = (float)r.LogReal(1e-45, 1e-36); break;
    case 7: base = -kMax / 2; range = kMax * r.F(.5, 1); break;
    default: base = r.F(-1, 1) * kMax; range = 0; break;
  }
  for (float& x : v) x = kind == 3 ? base + (float)r.Int(0, (int)range) : (float)((double)base + (double)range * (r.Chance(.3) ? r.Of({0., 1.}) : r.U()));
  for (float& x : v) if (!std::isfinite(x)) x = base;
  return v;
}
struct Raw { Attrs attrs; Ix ix; std::vector<std::vector<float>> comp; std::vector<uint32_t> idx; size_t n = 0; };
Raw RandRaw(Rng& r, int max_vertices, bool nasty, int max_attrs = 8) {
  Raw m; m.attrs = RandAttrs(r, max_attrs); m.ix = r.Chance(.5) ? Ix::k16BitUnpacked16BitPacked : Ix::k32BitUnpacked16BitPacked;
  m.n = r.Int(3, max_vertices);
  for (auto& [t, id] : m.attrs) for (int k = 0; k < Info(t).n; ++k) m.comp.push_back(RandComponent(r, m.n, nasty));
  int tris = r.Int(0, (int)m.n);
  for (int i = 0; i < tris; ++i) {
    uint32_t a = r.Below(m.n), b = (a + 1 + r.Below(m.n - 1)) % m.n, d;
    do d = r.Below(m.n); while (d == a || d == b);
    m.idx.insert(m.idx.end(), {a, b, d});
  }
  return m;
}
std::vector<absl::Span<const float>> Spans(const Raw& m) { std::vector<absl::Span<const float>> s; for (auto& v : m.comp) s.push_back(v); return s; }
// The integers that the documented layout stores in these bytes.
std::vector<uint32_t> Decode(const TI& t, const std::byte* p) {
  std::vector<bool> bits;
  if (t.as_float) {
    for (int i = 0; i < t.bytes / 4; ++i) {
      float f; std::memcpy(&f, p + 4 * i, 4);
      if (!(f >= 0 && f <= 16777215.f && f == std::floor(f))) throw Violation("packed-float", Cat("packed float ", f));
      for (int b = 23; b >= 0; --b) bits.push_back((uint32_t)f >> b & 1);
    }
  } else {
    for (int i = 0; i < t.bytes; ++i) for (int b = 7; b >= 0; --b) bits.push_back((uint32_t)p[i] >> b & 1);
  }
  std::vector<uint32_t> out; size_t at = 0;
  for (int k = 0; k < t.n; ++k) { uint32_t v = 0; for (int b = 0; b < t.bits[k]; ++b) v = v << 1 | bits[at++]; out.push_back(v); }
  for (; at < bits.size(); ++at) if (bits[at]) throw Violation("packed-spare-bits", "spare bits are set");
  return out;
}
double UlpOf(double v) { return std::max(1.5e-45, std::ldexp(std::fabs(v), -23)); }
// Monitors one vertex attribute of a mesh against the values it was made from. slack: extra steps a position may move.
void CheckAttr(Ctx& c, const Mesh& m, uint32_t v, int a, const float* want, const std::vector<double>* lo, const std::vector<double>* hi, double slack, bool custom) {
  Type t = m.Format().Attributes()[a].type; const TI& ti = Info(t);
  SmallArray<float, 4> got = m.FloatVertexAttribute(v, a);
  VH_REQUIRE(c, got.Size() == ti.n, "attribute-size", got.Size());
  const std::byte* bytes = m.RawVertexData().data() + (size_t)v * m.VertexStride() + m.Format().Attributes()[a].packed_offset;
  if (!Packed(t)) {
    for (int k = 0; k < ti.n; ++k) {
      float raw; std::memcpy(&raw, bytes + 4 * k, 4);
      VH_REQUIRE(c, got[k] == want[k] && SameF(raw, want[k]), "unpacked-lossless", "vertex ", v, " attribute ", a, " component ", k, " ", want[k], " -> ", got[k]);
    }
    c.Count("lossless attributes compared");
    return;
  }
  SmallArray<uint32_t, 4> ints = m.PackedIntegersForFloatVertexAttribute(v, a);
  std::vector<uint32_t> dec = Decode(ti, bytes);
  const auto& par = m.VertexAttributeUnpackingParams(a);
  VH_REQUIRE(c, par.components.Size() == ti.n && ints.Size() == ti.n, "params-size", a);
  for (int k = 0; k < ti.n; ++k) {
    double top = std::ldexp(1., ti.bits[k]) - 1, off = par.components[k].offset, sc = par.components[k].scale;
    VH_REQUIRE(c, sc > 0 && std::isfinite(sc) && std::isfinite(off), "params-valid", "attribute ", a, " scale ", sc, " offset ", off);
    VH_REQUIRE(c, ints[k] <= top && dec[k] == ints[k], "packed-layout", "vertex ", v, " attribute ", a, " type ", (int)t, " component ", k, ": stored ", dec[k], " reported ", ints[k]);
    double un = ints[k] * sc + off, tol = 2 * (UlpOf(un) + UlpOf(off) + UlpOf(ints[k] * sc));
    if (std::fabs(un) < 3.4e38) VH_REQUIRE(c, std::fabs(got[k] - un) <= tol, "unpack-formula", "vertex ", v, " attribute ", a, " component ", k, ": ", got[k], " want ", un);
    double err = std::fabs((double)got[k] - want[k]), step = sc;
    if (!custom) {  // documented bound, and no coarser steps than needed
      double range = (*hi)[k] - (*lo)[k];
      step = range > 0 ? range / top : 0;
      VH_REQUIRE(c, step == 0 || std::fabs(sc - step) <= 4e-7 * step + 1.5e-45, "packing-step", "attribute ", a, " component ", k, " scale ", sc, " want ", step);
      // With subnormal steps, nothing finer than the steps of floats exists.
      step = std::max(step, range > 0 ? 1.5e-45 : 0);
    }
    double bound = step * (.5 + slack) + 2 * UlpOf(want[k]) + 2 * UlpOf(off) + 3 * UlpOf(ints[k] * sc);
    VH_REQUIRE(c, err <= bound, "packing-error", "vertex ", v, " attribute ", a, " type ", (int)t, " component ", k, ": ", want[k], " -> ", got[k], " error ", err, " bound ", bound, " step ", step);
    c.Sig(ints[k]);
  }
  c.Count("packed attributes compared");
}
absl::StatusOr<Mesh> Make(const Raw& m, absl::Span<const std::optional<MeshAttributeCodingParams>> par = {}) {
  return Mesh::Create(*MeshFormat::Create(m.attrs, m.ix), Spans(m), m.idx, par);
}
}  // namespace

// ---------------------------------------------------------------- G06
VH_PROPERTY(G06) {
  Rng& r = c.rng;
  for (const TI& t : kTypes) {  // the table of types
    auto bits = MeshFormat::PackedBitsPerComponent(t.t);
    VH_REQUIRE(c, MeshFormat::ComponentCount(t.t) == t.n && MeshFormat::UnpackedAttributeSize(t.t) == 4 * t.n && MeshFormat::PackedAttributeSize(t.t) == t.bytes && MeshFormat::IsPackedAsFloat(t.t) == t.as_float && MeshFormat::IsUnpackedType(t.t) == !t.bits[0] && bits.has_value() == (t.bits[0] != 0), "type-table", (int)t.t);
    if (bits) for (int k = 0; k < t.n; ++k) VH_REQUIRE(c, bits->Size() == t.n && (*bits)[k] == t.bits[k], "type-bits", (int)t.t);
  }
  // Creating a format.
  Attrs a = RandAttrs(r, r.Chance(.3) ? MeshFormat::MaxAttributes() : 6);
  Ix ix = r.Chance(.5) ? Ix::k16BitUnpacked16BitPacked : Ix::k32BitUnpacked16BitPacked;
  VH_REQUIRE(c, MeshFormat::UnpackedIndexSize(ix) == (ix == Ix::k16BitUnpacked16BitPacked ? 2 : 4), "index-size", (int)ix);
  bool bad = false; int kind = r.Below(9);
  Attrs b = a;
  switch (kind) {
    case 0: b.clear(); bad = true; break;
    case 1: while (b.size() <= MeshFormat::MaxAttributes()) b.push_back({RandType(r), (Id)r.Int(1, 18)}); bad = true; break;
    case 2: b[r.Below(b.size())].first = (Type)r.Int(14, 255); bad = true; break;
    case 3: b[r.Below(b.size())].second = (Id)r.Int(19, 127); bad = true; break;
    case 4: if (b.size() < MeshFormat::MaxAttributes()) { auto x = b[r.Below(b.size())]; b.insert(b.begin() + r.Below(b.size() + 1), x); bad = true; } break;
    case 5: for (auto& [t, i] : b) if (i == Id::kPosition) { bool used = true; for (int k = 1; used; ++k) { used = false; for (auto& y : a) used |= (int)y.second == k; if (!used) i = (Id)k; } break; } bad = true; break;
    case 6: for (auto& [t, i] : b) if (i == Id::kPosition) t = RandType(r, r.Of({1, 3, 4})); bad = true; break;
    default: break;
  }
  auto f = MeshFormat::Create(b, ix);
  VH_REQUIRE(c, f.ok() == !bad, "format-validation", "kind ", kind, " ", ShowA(b));
  if (bad) { VH_REQUIRE(c, f.status().code() == absl::StatusCode::kInvalidArgument, "format-status", kind); c.Count("formats rejected"); f = MeshFormat::Create(a, ix); VH_REQUIRE(c, f.ok(), "format-validation", ShowA(a)); }
  CheckFormat(c, *f, a, ix);
  CheckFormat(c, MeshFormat(), {{Type::kFloat2Unpacked, Id::kPosition}}, Ix::k32BitUnpacked16BitPacked);
  c.Count("formats accepted");
  c.Sample("format ", ShowA(a), " variant ", kind);
  // Comparing formats.
  Attrs d = a; Ix ix2 = ix;
  switch (r.Below(5)) {
    case 0: if (d.size() > 1) { size_t i = r.Below(d.size()), j = r.Below(d.size()); std::swap(d[i], d[j]); } break;
    case 1: { auto& x = d[r.Below(d.size())]; x.first = RandType(r, Info(x.first).n); } break;
    case 2: ix2 = ix == Ix::k16BitUnpacked16BitPacked ? Ix::k32BitUnpacked16BitPacked : Ix::k16BitUnpacked16BitPacked; break;
    case 3: d = RandAttrs(r, 4); break;
    default: break;
  }
  auto g = MeshFormat::Create(d, ix2);
  VH_REQUIRE(c, g.ok(), "format-validation", ShowA(d));
  bool same = a == d, uneq = a.size() == d.size();
  for (size_t i = 0; uneq && i < a.size(); ++i) uneq = a[i].second == d[i].second && Info(a[i].first).n == Info(d[i].first).n;
  VH_REQUIRE(c, (*f == *g) == (same && ix == ix2) && (*f != *g) == !(same && ix == ix2), "format-equality", ShowA(a), " ", ShowA(d));
  VH_REQUIRE(c, MeshFormat::IsPackedEquivalent(*f, *g) == same && MeshFormat::IsPackedEquivalent(*g, *f) == same, "packed-equivalence", ShowA(a), " ", ShowA(d));
  VH_REQUIRE(c, MeshFormat::IsUnpackedEquivalent(*f, *g) == uneq && MeshFormat::IsUnpackedEquivalent(*g, *f) == uneq, "unpacked-equivalence", ShowA(a), " ", ShowA(d));
  if (*f == *g) VH_REQUIRE(c, absl::HashOf(*f) == absl::HashOf(*g), "format-hash", ShowA(a));
  // Removing attributes.
  std::vector<Id> rem; Attrs left; bool bad_rem = false;
  for (auto& x : a) { if (x.second != Id::kPosition && r.Chance(.4)) rem.push_back(x.second); else left.push_back(x); }
  if (r.Chance(.15)) { rem.push_back(Id::kPosition); bad_rem = true; }
  if (r.Chance(.2)) { Id x = (Id)r.Int(1, 18); bool has = false; for (auto& y : a) has |= y.second == x; if (!has) { rem.push_back(x); bad_rem = true; } }
  if (!rem.empty() && r.Chance(.2)) rem.push_back(rem[0]);
  for (size_t i = rem.size(); i > 1; --i) std::swap(rem[i - 1], rem[r.Below(i)]);
  auto w = f->WithoutAttributes(rem);
  VH_REQUIRE(c, w.ok() == !bad_rem, "without-validation", ShowA(a));
  if (w.ok()) CheckFormat(c, *w, left, ix);
  for (auto& [t, i] : a) { c.Sig(t); c.Sig(i); }
  c.Sig(kind); c.NonTrivial();
  // Creating a mesh: exactly the documented errors.
  Raw m = RandRaw(r, 8, true, 4);
  std::vector<std::optional<MeshAttributeCodingParams>> par;
  bool mbad = false; int mk = r.Below(14);
  auto spans = Spans(m);
  std::vector<float> big;
  auto lo = [&](int k) { return *std::min_element(m.comp[k].begin(), m.comp[k].end()); };
  auto hi = [&](int k) { return *std::max_element(m.comp[k].begin(), m.comp[k].end()); };
  auto first = [&](int at) { int k = 0; for (int i = 0; i < at; ++i) k += Info(m.attrs[i].first).n; return k; };
  int at = r.Below(m.attrs.size());
  switch (mk) {
    case 0: spans.pop_back(); mbad = true; break;
    case 1: spans.push_back(spans[0]); mbad = true; break;
    case 2: { size_t k = r.Below(spans.size()); if (spans.size() > 1) { spans[k] = spans[k].subspan(0, m.n - 1); mbad = true; } } break;
    case 3: m.comp[r.Below(m.comp.size())][r.Below(m.n)] = r.Of({kInf, -kInf, kNan}); mbad = true; break;
    case 4: m.idx.push_back(0); if (r.Chance(.5)) m.idx.push_back(0); mbad = true; break;
    case 5: if (!m.idx.empty()) { m.idx[r.Below(m.idx.size())] = (uint32_t)(m.n + (r.Chance(.5) ? 0 : r.Below(1ull << 31))); mbad = true; } break;
    case 6: for (size_t i = 0; i < m.attrs.size(); ++i) if (Packed(m.attrs[i].first)) { int k = first(i) + r.Below(Info(m.attrs[i].first).n); m.comp[k][0] = -kMax; m.comp[k][m.n - 1] = r.F(.1, 1) * kMax; mbad = true; } break;
    case 7: par.resize(m.attrs.size() + (r.Chance(.5) ? 1 : -1)); mbad = !par.empty(); break;
    default: {
      if (mk < 10) break;
      par.resize(m.attrs.size());
      int n = Info(m.attrs[at].first).n; bool pk = Packed(m.attrs[at].first);
      MeshAttributeCodingParams p; p.components.Resize(n);
      bool fits = true;
      for (int k = 0; k < n; ++k) {
        double l = lo(first(at) + k), h = hi(first(at) + k), top = std::ldexp(1., Info(m.attrs[at].first).bits[k]) - 1;
        if (std::fabs(l) > 1e30 || std::fabs(h) > 1e30 || (h > l && h - l < 1e-30)) throw Skip();
        p.components[k].offset = (float)(l - std::max(.25 * (h - l), std::fabs(l) * 1e-3 + 1e-20)); p.components[k].scale = pk ? (float)(2 * std::max(h - p.components[k].offset, 1e-20) / top) : 1;
      }
      switch (mk) {
        case 10: mbad = !pk; break;
        case 11: p.components.Resize(n == 4 ? 3 : n + 1); if (n < 4) p.components[n] = {.offset = 0, .scale = 1}; mbad = true; break;
        case 12: { auto& q = p.components[r.Below(n)]; switch (r.Below(5)) { case 0: q.offset = kNan; break; case 1: q.offset = kInf; break; case 2: q.scale = r.Of({0.f, -1.f}); break; case 3: q.scale = kNan; break; default: q.scale = kInf; } mbad = true; } break;
        default: {
          int k = r.Below(n); double l = lo(first(at) + k), h = hi(first(at) + k), top = std::ldexp(1., Info(m.attrs[at].first).bits[k]) - 1;
          double mag = std::max({std::fabs(l), std::fabs(h), 1e-3});
          if (r.Chance(.5)) { p.components[k].offset = (float)(l + 2 * mag); p.components[k].scale = (float)(mag); }  // below zero
          else { p.components[k].offset = (float)(l - mag); p.components[k].scale = (float)(.4 * (h - l + mag) / top); }  // beyond the top
          fits = false; mbad = true;
        }
      }
      (void)fits;
      par[at] = p;
    }
  }
  if (mk == 3 || mk == 6) spans = Spans(m);
  auto mesh = Mesh::Create(*MeshFormat::Create(m.attrs, m.ix), spans, m.idx, par);
  // A finite range that cannot be represented is an error too.
  if (!mbad) for (size_t i = 0; i < m.attrs.size(); ++i) if (Packed(m.attrs[i].first)) for (int k = 0; k < Info(m.attrs[i].first).n; ++k) if ((double)hi(first(i) + k) - lo(first(i) + k) > kMax * .999) throw Skip();
  VH_REQUIRE(c, mesh.ok() == !mbad, "mesh-validation", "kind ", mk, " ", ShowA(m.attrs), " status ", std::string(mesh.status().message()));
  if (mbad) c.Count("meshes rejected"); else c.Count("meshes accepted");
  if (r.Chance(.002)) {  // limit of the index type
    std::vector<float> x(65537, 1.f), y(65537, 2.f);
    for (size_t i = 0; i < x.size(); ++i) x[i] = (float)i;
    for (size_t n : {65536, 65537}) {
      absl::Span<const float> s[2] = {absl::MakeConstSpan(x).subspan(0, n), absl::MakeConstSpan(y).subspan(0, n)};
      uint32_t tri[3] = {0, 65535, 1};
      auto q = Mesh::Create(MeshFormat(), s, tri);
      VH_REQUIRE(c, q.ok() == (n == 65536), "mesh-vertex-limit", n);
      if (q.ok()) VH_REQUIRE(c, q->VertexCount() == 65536 && q->TriangleIndices(0)[1] == 65535 && q->GetTriangle(0).p1 == (Point{65535, 2}), "mesh-vertex-limit", "contents");
    }
    c.Count("vertex limits tried");
  }
}

// ---------------------------------------------------------------- G07
VH_PROPERTY(G07) {
  Rng& r = c.rng;
  Raw m = RandRaw(r, r.Chance(.1) ? 200 : 12, true, 5);
  if (r.Chance(.02)) { for (auto& v : m.comp) v.clear(); m.idx.clear(); m.n = 0; }
  std::vector<std::vector<double>> lo(m.attrs.size()), hi(m.attrs.size());
  std::vector<std::optional<MeshAttributeCodingParams>> par;
  std::vector<bool> custom(m.attrs.size(), false);
  if (m.n) {
    size_t k = 0;
    for (size_t a = 0; a < m.attrs.size(); ++a) for (int i = 0; i < Info(m.attrs[a].first).n; ++i, ++k) {
      lo[a].push_back(*std::min_element(m.comp[k].begin(), m.comp[k].end()));
      hi[a].push_back(*std::max_element(m.comp[k].begin(), m.comp[k].end()));
      if (!std::isfinite((float)hi[a].back() - (float)lo[a].back())) throw Skip();
    }
    if (r.Chance(.25)) {
      par.resize(m.attrs.size());
      for (size_t a = 0; a < m.attrs.size(); ++a) if (Packed(m.attrs[a].first) && r.Chance(.5)) {
        int n = Info(m.attrs[a].first).n; MeshAttributeCodingParams p; p.components.Resize(n); bool ok = true;
        for (int i = 0; i < n; ++i) {
          double range = hi[a][i] - lo[a][i], top = std::ldexp(1., Info(m.attrs[a].first).bits[i]) - 1, mag = std::max(std::fabs(lo[a][i]), std::fabs(hi[a][i]));
          if (mag > 1e35 || (mag > 0 && mag < 1e-30)) ok = false;
          double o = lo[a][i] - r.U() * (range + .01 * mag + 1e-10), s = (hi[a][i] - o) * r.Real(1.01, 3) / top;
          p.components[i] = {.offset = (float)o, .scale = (float)std::max(s, 1e-25)};
          if ((float)o > lo[a][i] || range < 1e-5 * mag) ok = false;
        }
        if (ok) { par[a] = p; custom[a] = true; }
      }
    }
  }
  auto mesh = Make(m, par);
  VH_REQUIRE(c, mesh.ok(), "mesh-create", ShowA(m.attrs), " ", std::string(mesh.status().message()));
  VH_REQUIRE(c, mesh->VertexCount() == m.n && mesh->TriangleCount() == m.idx.size() / 3 && mesh->VertexStride() == mesh->Format().PackedVertexStride() && mesh->IndexStride() == 2 && mesh->RawVertexData().size() == m.n * mesh->VertexStride() && mesh->RawIndexData().size() == 2 * m.idx.size() && Of(mesh->Format()) == m.attrs && mesh->Format().GetIndexFormat() == m.ix, "mesh-shape", ShowA(m.attrs));
  for (size_t i = 0; i < m.idx.size() / 3; ++i) {
    auto t = mesh->TriangleIndices(i);
    for (int j = 0; j < 3; ++j) {
      uint16_t raw; std::memcpy(&raw, mesh->RawIndexData().data() + 2 * (3 * i + j), 2);
      VH_REQUIRE(c, t[j] == m.idx[3 * i + j] && raw == t[j], "mesh-indices", i);
    }
    Triangle g = mesh->GetTriangle(i);
    VH_REQUIRE(c, g.p0 == mesh->VertexPosition(t[0]) && g.p1 == mesh->VertexPosition(t[1]) && g.p2 == mesh->VertexPosition(t[2]), "mesh-triangle", i);
  }
  Mesh copy = *mesh;
  if (m.n == 0) {
    VH_REQUIRE(c, mesh->Bounds().IsEmpty() && !mesh->AttributeBounds(0).has_value(), "empty-mesh-bounds", "");
    c.Count("empty meshes"); c.Sig(m.attrs.size()); return;
  }
  for (uint32_t v = 0; v < m.n; ++v) {
    size_t k = 0;
    for (size_t a = 0; a < m.attrs.size(); ++a) {
      float want[4]; int n = Info(m.attrs[a].first).n;
      for (int i = 0; i < n; ++i) want[i] = m.comp[k + i][v];
      CheckAttr(c, copy, v, a, want, &lo[a], &hi[a], 0, custom[a]);
      if (m.attrs[a].second == Id::kPosition) { auto f = copy.FloatVertexAttribute(v, a); VH_REQUIRE(c, copy.VertexPosition(v) == (Point{f[0], f[1]}), "mesh-position", v); }
      k += n;
    }
  }
  // Order is kept, the extremes use the whole range of integers, and bounds are those of the values.
  size_t k = 0;
  for (size_t a = 0; a < m.attrs.size(); ++a) for (int i = 0; i < Info(m.attrs[a].first).n; ++i, ++k) {
    auto b = mesh->AttributeBounds(a);
    VH_REQUIRE(c, b.has_value(), "attribute-bounds", a);
    const auto& sc = mesh->VertexAttributeUnpackingParams(a).components[i];
    double tol = Packed(m.attrs[a].first) ? sc.scale + 4 * (UlpOf(lo[a][i]) + UlpOf(hi[a][i])) : 0;
    VH_REQUIRE(c, std::fabs(b->minimum[i] - lo[a][i]) <= tol && std::fabs(b->maximum[i] - hi[a][i]) <= tol, "attribute-bounds", "attribute ", a, " component ", i, " [", b->minimum[i], ",", b->maximum[i], "] want [", lo[a][i], ",", hi[a][i], "]");
    if (!Packed(m.attrs[a].first)) continue;
    std::vector<std::pair<float, uint32_t>> s;
    for (uint32_t v = 0; v < m.n; ++v) s.push_back({m.comp[k][v], mesh->PackedIntegersForFloatVertexAttribute(v, a)[i]});
    std::sort(s.begin(), s.end());
    for (size_t j = 1; j < s.size(); ++j) VH_REQUIRE(c, s[j - 1].second <= s[j].second && (s[j - 1].first != s[j].first || s[j - 1].second == s[j].second), "packing-monotone", "attribute ", a, ": ", s[j - 1].first, "->", s[j - 1].second, " ", s[j].first, "->", s[j].second);
    if (!custom[a]) {
      uint32_t top = (1u << Info(m.attrs[a].first).bits[i]) - 1;
      VH_REQUIRE(c, s.front().second == 0, "packing-minimum", "attribute ", a, " minimum packed as ", s.front().second);
      if (hi[a][i] - lo[a][i] > 1e-30) VH_REQUIRE(c, s.back().second == top, "packing-maximum", "attribute ", a, " maximum packed as ", s.back().second, " of ", top);
      c.NonTrivial();
    }
  }
  Envelope e = mesh->Bounds();
  int pa = mesh->VertexPositionAttributeIndex(); auto pb = mesh->AttributeBounds(pa);
  VH_REQUIRE(c, m.attrs[pa].second == Id::kPosition && !e.IsEmpty() && e.AsRect()->XMin() == pb->minimum[0] && e.AsRect()->YMax() == pb->maximum[1] && e.AsRect()->XMax() == pb->maximum[0] && e.AsRect()->YMin() == pb->minimum[1], "mesh-bounds", pa);
  c.Sample(m.n, " vertices, ", m.idx.size() / 3, " triangles, attributes ", ShowA(m.attrs));
}

// ---------------------------------------------------------------- G08
namespace {
struct Model { Attrs attrs; Ix ix; std::vector<std::vector<float>> v; std::vector<std::array<uint32_t, 3>> t; };
int Comp(const Attrs& a, int at) { int k = 0; for (int i = 0; i < at; ++i) k += Info(a[i].first).n; return k; }
int Pos(const Attrs& a) { for (size_t i = 0; i < a.size(); ++i) if (a[i].second == Id::kPosition) return i; return -1; }
void Compare(Ctx& c, const MutableMesh& m, const Model& w, const char* after) {
  VH_REQUIRE(c, m.VertexCount() == w.v.size() && m.TriangleCount() == w.t.size() && Of(m.Format()) == w.attrs && m.Format().GetIndexFormat() == w.ix && m.VertexStride() == m.Format().UnpackedVertexStride() && m.RawVertexData().size() == w.v.size() * m.VertexStride() && m.RawIndexData().size() == w.t.size() * 3 * m.IndexStride(), "mutable-shape", "after ", after, ": ", m.VertexCount(), " vertices, want ", w.v.size(), "; ", m.TriangleCount(), " triangles, want ", w.t.size());
  for (uint32_t i = 0; i < w.v.size(); ++i) {
    int k = 0;
    for (size_t a = 0; a < w.attrs.size(); ++a) {
      auto got = m.FloatVertexAttribute(i, a);
      for (int j = 0; j < Info(w.attrs[a].first).n; ++j, ++k) {
        float raw; std::memcpy(&raw, m.RawVertexData().data() + i * m.VertexStride() + 4 * k, 4);
        VH_REQUIRE(c, SameF(got[j], w.v[i][k]) && SameF(raw, got[j]), "mutable-attribute", "after ", after, ": vertex ", i, " attribute ", a, " component ", j, ": ", got[j], " want ", w.v[i][k]);
      }
    }
    int p = Comp(w.attrs, Pos(w.attrs));
    VH_REQUIRE(c, SameF(m.VertexPosition(i).x, w.v[i][p]) && SameF(m.VertexPosition(i).y, w.v[i][p + 1]), "mutable-position", "after ", after, ": vertex ", i);
  }
  for (uint32_t i = 0; i < w.t.size(); ++i) VH_REQUIRE(c, m.TriangleIndices(i) == w.t[i], "mutable-triangle", "after ", after, ": triangle ", i);
}
// Areas above this have their sign in single precision, too.
double LeastArea(P a, P b, P d) { double l = std::max({Len(b - a), Len(d - b), Len(d - a)}); return 1e-6 * l * l; }
double Area(P a, P b, P d) { return .5 * Det(b - a, d - a); }
// Converts and monitors the result against the model. Returns whether it succeeded.
bool Convert(Ctx& c, const MutableMesh& mm, const Model& w, const std::vector<Id>& omit, bool bad_omit) {
  bool valid = true;
  for (auto& t : w.t) for (int j = 0; j < 3; ++j) valid &= t[j] < w.v.size() && t[j] != t[(j + 1) % 3];
  VH_REQUIRE(c, mm.ValidateTriangles().ok() == valid, "validate-triangles", "want ", valid);
  auto res = mm.AsMeshes({}, omit);
  if (w.t.empty()) { VH_REQUIRE(c, res.ok() && res->empty(), "convert-no-triangles", ""); return false; }
  // Vertices outside of every triangle are stripped, and count in nothing but finiteness.
  std::set<uint32_t> used;
  if (valid) for (auto& t : w.t) used.insert(t.begin(), t.end());
  Attrs kept; std::vector<int> src;
  for (size_t a = 0; a < w.attrs.size(); ++a) if (std::find(omit.begin(), omit.end(), w.attrs[a].second) == omit.end()) { kept.push_back(w.attrs[a]); src.push_back(Comp(w.attrs, a)); }
  bool finite = true, range_ok = true;
  std::vector<std::vector<double>> lo(kept.size()), hi(kept.size());
  for (size_t a = 0; a < kept.size(); ++a) for (int k = 0; k < Info(kept[a].first).n; ++k) {
    double l = 1e300, h = -1e300;
    for (uint32_t i = 0; i < w.v.size(); ++i) { float x = w.v[i][src[a] + k]; if (!std::isfinite(x)) finite = false; else if (used.count(i)) { l = std::min<double>(l, x); h = std::max<double>(h, x); } }
    lo[a].push_back(l); hi[a].push_back(h);
    if (h >= l && !std::isfinite((float)h - (float)l)) { if (Packed(kept[a].first)) range_ok = false; else throw Skip(); }
  }
  bool want = valid && finite && range_ok && !bad_omit;
  VH_REQUIRE(c, res.ok() == want, "convert-validation", "valid ", valid, " finite ", finite, " range ", range_ok, " omit ", !bad_omit, ": ", std::string(res.status().message()));
  if (!want) { c.Count("conversions rejected"); return false; }
  // Triangles in order; every vertex of each part is used; all parts share one packing.
  size_t ti = 0;
  int pa = Pos(kept); Type pt = kept[pa].first;
  std::map<uint32_t, Point> place; bool moved = false, flipped_after = false, negative_before = false;
  double mag = 0; for (int k : {0, 1}) mag = std::max({mag, std::fabs(lo[pa][k]), std::fabs(hi[pa][k])});
  auto at = [&](uint32_t i) { return P{w.v[i][src[pa]], w.v[i][src[pa] + 1]}; };
  for (auto& t : w.t) negative_before |= Area(at(t[0]), at(t[1]), at(t[2])) < LeastArea(at(t[0]), at(t[1]), at(t[2]));
  for (size_t p = 0; p < res->size(); ++p) {
    const Mesh& m = (*res)[p];
    VH_REQUIRE(c, Of(m.Format()) == kept && m.Format().GetIndexFormat() == w.ix, "convert-format", ShowA(Of(m.Format())));
    VH_REQUIRE(c, m.VertexCount() > 0 && m.VertexCount() <= 65536 && m.TriangleCount() > 0, "convert-partition", m.VertexCount(), " vertices ", m.TriangleCount(), " triangles");
    for (size_t a = 0; a < kept.size() && p; ++a) for (int k = 0; k < Info(kept[a].first).n; ++k) { auto &x = m.VertexAttributeUnpackingParams(a).components[k], &y = (*res)[0].VertexAttributeUnpackingParams(a).components[k]; VH_REQUIRE(c, x.offset == y.offset && x.scale == y.scale, "convert-shared-packing", a); }
    std::vector<int64_t> orig(m.VertexCount(), -1);
    for (uint32_t i = 0; i < m.TriangleCount(); ++i, ++ti) {
      VH_REQUIRE(c, ti < w.t.size(), "convert-triangle-count", "more than ", w.t.size());
      auto t = m.TriangleIndices(i);
      for (int j = 0; j < 3; ++j) { VH_REQUIRE(c, t[j] < orig.size(), "convert-index", t[j]); VH_REQUIRE(c, orig[t[j]] < 0 || orig[t[j]] == w.t[ti][j], "convert-vertex-identity", "triangle ", ti); orig[t[j]] = w.t[ti][j]; }
      Triangle g = m.GetTriangle(i);
      if (g.SignedArea() < 0) flipped_after = true;
    }
    std::set<int64_t> once;
    for (uint32_t i = 0; i < m.VertexCount(); ++i) {
      VH_REQUIRE(c, orig[i] >= 0 && once.insert(orig[i]).second, "convert-strips-vertices", "vertex ", i, " of part ", p, " is unused or repeated");
      for (size_t a = 0; a < kept.size(); ++a) {
        bool pos = (int)a == pa && Packed(pt) && !negative_before;
        CheckAttr(c, m, i, a, &w.v[orig[i]][src[a]], &lo[a], &hi[a], pos ? .5 : 0, false);
      }
      Point q = m.VertexPosition(i);
      if (Packed(pt)) {
        auto ints = m.PackedIntegersForFloatVertexAttribute(i, pa); auto& par = m.VertexAttributeUnpackingParams(pa).components;
        for (int k : {0, 1}) if (std::round((w.v[orig[i]][src[pa] + k] - par[k].offset) / par[k].scale) != (float)ints[k]) moved = true;
      }
      auto [it, fresh] = place.insert({(uint32_t)orig[i], q});
      VH_REQUIRE(c, fresh || it->second == q, "convert-shared-vertex", "vertex ", orig[i], " lies at different places in two parts");
    }
    auto b = m.Bounds().AsRect();
    double tol = Packed(pt) ? std::max(m.VertexAttributeUnpackingParams(pa).components[0].scale, m.VertexAttributeUnpackingParams(pa).components[1].scale) + 4 * UlpOf(mag) : 0;
    Envelope e; for (uint32_t i = 0; i < m.VertexCount(); ++i) e.Add(m.VertexPosition(i));
    VH_REQUIRE(c, b.has_value() && std::fabs(b->XMin() - e.AsRect()->XMin()) <= tol && std::fabs(b->XMax() - e.AsRect()->XMax()) <= tol && std::fabs(b->YMin() - e.AsRect()->YMin()) <= tol && std::fabs(b->YMax() - e.AsRect()->YMax()) <= tol, "convert-bounds", "part ", p);
  }
  VH_REQUIRE(c, ti == w.t.size(), "convert-triangle-count", ti, " of ", w.t.size());
  if (moved) {
    c.Count("conversions that corrected flipped triangles");
    VH_REQUIRE(c, !flipped_after, "convert-correction-complete", "vertices were moved, but a triangle is still flipped");
  }
  // A triangle that shares no vertex can always be kept from flipping.
  bool shared = used.size() != 3 * w.t.size();
  if (flipped_after && !negative_before) c.Count("conversions left flipped");
  if (negative_before) c.Count("conversions of flipped triangles");
  if (moved && shared) c.Count("corrections of triangles that share vertices");
  if (!shared && !negative_before && Packed(pt)) { VH_REQUIRE(c, !flipped_after, "convert-keeps-winding", "separate triangles, all counterclockwise before, one is flipped after"); c.Count("conversions of separate triangles"); }
  if (res->size() > 1) c.Count("conversions into several meshes");
  c.Count("conversions checked"); c.Sig(res->size()); c.Sig(moved);
  // And back.
  const Mesh& m0 = (*res)[0];
  MutableMesh back = MutableMesh::FromMesh(m0);
  VH_REQUIRE(c, back.VertexCount() == m0.VertexCount() && back.TriangleCount() == m0.TriangleCount() && back.Format() == m0.Format(), "from-mesh", "shape");
  for (uint32_t i = 0; i < m0.VertexCount(); ++i) for (size_t a = 0; a < kept.size(); ++a) for (int k = 0; k < Info(kept[a].first).n; ++k) VH_REQUIRE(c, back.FloatVertexAttribute(i, a)[k] == m0.FloatVertexAttribute(i, a)[k], "from-mesh", "vertex ", i, " attribute ", a);
  for (uint32_t i = 0; i < m0.TriangleCount(); ++i) VH_REQUIRE(c, back.TriangleIndices(i) == m0.TriangleIndices(i), "from-mesh", "triangle ", i);
  return true;
}
// Small meshes of triangles that share vertices, some about as thin as a
// quantization step.
void ThinStrips(Ctx& c) {
  Rng& r = c.rng;
  for (int k = r.Int(4, 12); k > 0; --k) {
    Model w; w.ix = Ix::k32BitUnpacked16BitPacked;
    w.attrs = {{r.Of({Type::kFloat2PackedIn1Float, Type::kFloat2PackedIn3UnsignedBytes_XY12, Type::kFloat2PackedIn3UnsignedBytes_XY12, Type::kFloat2PackedIn4UnsignedBytes_X12_Y20}), Id::kPosition}};
    MutableMesh m(*MeshFormat::Create(w.attrs, w.ix));
    int n = r.Int(4, 10);
    bool fan = r.Chance(.4);
    double size = r.LogReal(.1, 1000), x = r.Real(-size, size), y = r.Real(-size, size), ang = r.Real(0, 7);
    for (int i = 0; i < n; ++i) {
      double step = size / n * r.Real(.1, 1), off = size * r.Of({1, -1}) * (r.Chance(.6) ? r.LogReal(2e-5, 5e-4) : r.LogReal(1e-3, .1));
      x += step * std::cos(ang), y += step * std::sin(ang), ang += r.Chance(.7) ? r.Real(-3e-4, 3e-4) : r.Real(-.2, .2);
      w.v.push_back({(float)(x - off * std::sin(ang)), (float)(y + off * std::cos(ang))});
    }
    for (auto& v : w.v) m.AppendVertex({v[0], v[1]});
    for (uint32_t i = fan ? 1 : 0; i + (fan ? 1 : 2) < (uint32_t)n; ++i) {
      std::array<uint32_t, 3> t = {fan ? 0u : i, i + 1, fan ? i : i + 2};
      P p0{w.v[t[0]][0], w.v[t[0]][1]}, p1{w.v[t[1]][0], w.v[t[1]][1]}, p2{w.v[t[2]][0], w.v[t[2]][1]};
      double a = Area(p0, p1, p2);
      if (std::fabs(a) < 1.5 * LeastArea(p0, p1, p2)) continue;
      if (a < 0) std::swap(t[1], t[2]);
      std::rotate(t.begin(), t.begin() + r.Below(3), t.end());
      w.t.push_back(t);
    }
    for (size_t i = w.t.size(); i > 1; --i) if (r.Chance(.5)) std::swap(w.t[i - 1], w.t[r.Below(i)]);
    for (auto& t : w.t) m.AppendTriangleIndices(t);
    Convert(c, m, w, {}, false);
    c.Sig(x);
  }
  c.NonTrivial();
  c.Sample("thin strips and fans");
}
}  // namespace
VH_PROPERTY(G08) {
  Rng& r = c.rng;
  if (r.Chance(.25)) return ThinStrips(c);
  if (r.Chance(.003)) {  // more vertices than one mesh can index
    Model w; w.attrs = {{r.Chance(.5) ? Type::kFloat2PackedIn1Float : Type::kFloat2Unpacked, Id::kPosition}}; w.ix = Ix::k32BitUnpacked16BitPacked;
    MutableMesh m(*MeshFormat::Create(w.attrs, w.ix));
    int n = r.Int(65530, 66500);
    for (int i = 0; i < n; ++i) { w.v.push_back({(float)(i % 300), (float)(i / 300)}); m.AppendVertex({w.v[i][0], w.v[i][1]}); }
    int stride = r.Of({1, 3});
    for (int i = 0; i + 2 < n; i += stride) { uint32_t a = i, b = i + 1, d = i + 2; if (r.Chance(.01)) a = r.Below(i + 1); if (a == b || a == d) a = i; w.t.push_back({a, b, d}); m.AppendTriangleIndices({a, b, d}); }
    Convert(c, m, w, {}, false);
    c.Sig(n); c.NonTrivial();
    return;
  }
  Model w; w.attrs = RandAttrs(r, 4); w.ix = r.Chance(.5) ? Ix::k16BitUnpacked16BitPacked : Ix::k32BitUnpacked16BitPacked;
  auto fmt = [](const Model& x) { return *MeshFormat::Create(x.attrs, x.ix); };
  MutableMesh m(fmt(w));
  auto width = [&] { return Comp(w.attrs, w.attrs.size()); };
  bool grid = r.Chance(.4);
  auto coord = [&]() -> float { return grid ? (float)r.Int(0, 30) + (r.Chance(.5) ? r.F(-.02, .02) : 0) : r.F(-50, 50); };
  int ops = r.Int(1, 60);
  for (int o = 0; o < ops; ++o) {
    int k = r.Below(20); const char* name = "?";
    uint32_t nv = w.v.size(), nt = w.t.size();
    auto tri = [&]() -> std::array<uint32_t, 3> {
      uint32_t lim = w.ix == Ix::k16BitUnpacked16BitPacked ? 65536 : 0;
      if (r.Chance(.01)) return {(uint32_t)(lim ? r.Below(lim) : r()), 0, 1};
      if (nv < 3) return {0, 1, 2};
      if (r.Chance(.01)) { uint32_t x = r.Below(nv); uint32_t y = r.Below(nv); return r.Of<std::array<uint32_t, 3>>({{x, x, y}, {x, y, x}, {y, x, x}}); }
      uint32_t a = r.Below(nv), b, d; do b = r.Below(nv); while (b == a); do d = r.Below(nv); while (d == a || d == b);
      return {a, b, d};
    };
    if (k < 8) { name = "AppendVertex"; Point p{coord(), coord()}; std::vector<float> v(width(), 0.f); int q = Comp(w.attrs, Pos(w.attrs)); v[q] = p.x; v[q + 1] = p.y; w.v.push_back(v); m.AppendVertex(p); }
    else if (k < 11) { name = "AppendTriangleIndices"; auto t = tri(); w.t.push_back(t); m.AppendTriangleIndices(t); }
    else if (k < 12) { name = "InsertTriangleIndices"; auto t = tri(); uint32_t i = r.Below(nt + 1); w.t.insert(w.t.begin() + i, t); m.InsertTriangleIndices(i, t); }
    else if (k < 13) { name = "SetTriangleIndices"; if (nt) { auto t = tri(); uint32_t i = r.Below(nt); w.t[i] = t; m.SetTriangleIndices(i, t); } }
    else if (k < 14) { name = "SetVertexPosition"; if (nv) { uint32_t i = r.Below(nv); Point p{coord(), coord()}; if (r.Chance(.005)) p.x = kNan; int q = Comp(w.attrs, Pos(w.attrs)); w.v[i][q] = p.x; w.v[i][q + 1] = p.y; m.SetVertexPosition(i, p); } }
    else if (k < 18) { name = "SetFloatVertexAttribute"; if (nv) { uint32_t i = r.Below(nv); int a = r.Below(w.attrs.size()); int q = Comp(w.attrs, a), n = Info(w.attrs[a].first).n; SmallArray<float, 4> v(n); for (int j = 0; j < n; ++j) { v[j] = w.v[i][q + j] = r.Chance(.003) ? r.Of({kInf, kMax, -kMax}) : coord(); } m.SetFloatVertexAttribute(i, a, v); } }
    else if (k < 19) {
      switch (r.Below(4)) {
        case 0: { name = "Resize"; uint32_t a = r.Chance(.5) ? nv : nv + r.Below(4), b = r.Chance(.7) ? nt : r.Below(nt + 1); if (r.Chance(.2)) a = r.Below(nv + 1); w.v.resize(a, std::vector<float>(width(), 0.f)); w.t.resize(b, {0, 0, 0}); m.Resize(a, b); } break;
        case 1: { name = "Clone"; MutableMesh x = m.Clone(); Compare(c, m, w, "Clone (original)"); Compare(c, x, w, name); if (r.Chance(.5)) m = std::move(x); else x.AppendVertex({1, 2}); } break;
        case 2: if (r.Chance(.2)) { name = "Clear"; m.Clear(); w.v.clear(); w.t.clear(); } break;
        default: if (r.Chance(.2)) { name = "Reset"; w.attrs = RandAttrs(r, 3); w.ix = r.Chance(.5) ? Ix::k16BitUnpacked16BitPacked : Ix::k32BitUnpacked16BitPacked; w.v.clear(); w.t.clear(); m.Reset(fmt(w)); }
      }
    } else { name = "move"; MutableMesh x(std::move(m)); m = std::move(x); }
    c.Count("edits");
    if (r.Chance(.1)) Compare(c, m, w, name);
  }
  Compare(c, m, w, "all edits");
  for (uint32_t i = 0; i < w.t.size(); ++i) { auto& t = w.t[i]; if (t[0] < w.v.size() && t[1] < w.v.size() && t[2] < w.v.size()) { Triangle g = m.GetTriangle(i); VH_REQUIRE(c, SameF(g.p0.x, m.VertexPosition(t[0]).x) && SameF(g.p1.y, m.VertexPosition(t[1]).y) && SameF(g.p2.x, m.VertexPosition(t[2]).x), "mutable-get-triangle", i); } }
  c.Sig(w.v.size()); c.Sig(w.t.size());
  // Convert; half of the time with all triangles turned counterclockwise, or separate and thin ones.
  int mode = r.Below(4);
  if (mode > 0 && w.v.size() >= 3) {
    int q = Comp(w.attrs, Pos(w.attrs));
    if (mode == 3) {  // thin triangles that share vertices: a strip or a fan
      bool fan = r.Chance(.4);
      double x = r.Real(0, 20), y = r.Real(0, 20), dx = r.Real(-3, 3), dy = r.Real(-3, 3), thick = r.LogReal(.0005, .05);
      for (size_t i = 0; i < w.v.size(); ++i) {
        if (i) x += dx * r.Real(.1, 1), y += dy * r.Real(.1, 1), dx += r.Real(-.2, .2), dy += r.Real(-.2, .2);
        double side = (i % 2 ? 1 : -1) * thick * r.U(), l = std::hypot(dx, dy) + 1e-9;
        w.v[i][q] = (float)(x - dy / l * side); w.v[i][q + 1] = (float)(y + dx / l * side);
        m.SetVertexPosition(i, {w.v[i][q], w.v[i][q + 1]});
      }
      w.t.clear();
      for (uint32_t i = fan ? 1 : 0; i + (fan ? 1 : 2) < w.v.size(); ++i) {
        std::array<uint32_t, 3> t = {fan ? 0u : i, i + 1, fan ? i : i + 2};
        std::rotate(t.begin(), t.begin() + r.Below(3), t.end());
        w.t.push_back(t);
      }
      if (r.Chance(.5)) for (size_t i = w.t.size(); i > 1; --i) std::swap(w.t[i - 1], w.t[r.Below(i)]);
    }
    if (mode == 2) {
      for (size_t i = 0; i < w.v.size(); ++i) { w.v[i][q] = (float)r.Int(0, 30) + r.F(-.01, .01); w.v[i][q + 1] = (float)r.Int(0, 30) + r.F(-.01, .01); m.SetVertexPosition(i, {w.v[i][q], w.v[i][q + 1]}); }
      w.t.clear();
      for (uint32_t i = 0; i + 2 < w.v.size(); i += 3) {
        if (r.Chance(.7)) {  // nearly collinear
          P a{w.v[i][q], w.v[i][q + 1]}, b{w.v[i + 1][q], w.v[i + 1][q + 1]}; double s = r.U();
          w.v[i + 2][q] = (float)(a.x + s * (b.x - a.x) + r.Real(-.01, .01)); w.v[i + 2][q + 1] = (float)(a.y + s * (b.y - a.y) + r.Real(-.01, .01));
          m.SetVertexPosition(i + 2, {w.v[i + 2][q], w.v[i + 2][q + 1]});
        }
        w.t.push_back({i, i + 1, i + 2});
      }
    }
    double far = 1;
    for (auto& v : w.v) far = std::max({far, std::fabs((double)v[q]), std::fabs((double)v[q + 1])});
    double least = mode == 3 ? 1.5e-6 * far * far : 4e-3;
    std::vector<std::array<uint32_t, 3>> keep;
    for (auto t : w.t) {
      if (t[0] >= w.v.size() || t[1] >= w.v.size() || t[2] >= w.v.size()) continue;
      double a = Area({w.v[t[0]][q], w.v[t[0]][q + 1]}, {w.v[t[1]][q], w.v[t[1]][q + 1]}, {w.v[t[2]][q], w.v[t[2]][q + 1]});
      if (a < 0) std::swap(t[1], t[2]);
      if (std::fabs(a) < least) continue;
      keep.push_back(t);
    }
    w.t = keep; m.Resize(w.v.size(), w.t.size());
    for (uint32_t i = 0; i < w.t.size(); ++i) m.SetTriangleIndices(i, w.t[i]);
    Compare(c, m, w, "preparation");
  }
  std::vector<Id> omit; bool bad = false;
  if (r.Chance(.3)) {
    for (auto& x : w.attrs) if (x.second != Id::kPosition && r.Chance(.5)) omit.push_back(x.second);
    if (r.Chance(.1)) { omit.push_back(Id::kPosition); bad = true; }
    else if (r.Chance(.1)) { Id x = (Id)r.Int(1, 18); bool has = false; for (auto& y : w.attrs) has |= y.second == x; if (!has) { omit.push_back(x); bad = true; } }
  }
  if (Convert(c, m, w, omit, bad)) c.NonTrivial();
  c.Sample(ops, " edits, ", w.v.size(), " vertices, ", w.t.size(), " triangles, attributes ", ShowA(w.attrs));
}

// ---------------------------------------------------------------- G09
namespace {
Mesh GridMesh(Rng& r, const MeshFormat& f, int max_tris, int span, float unit) {
  int n = r.Int(3, 3 + max_tris * 2), nt = r.Int(1, max_tris);
  std::vector<std::vector<float>> v; std::vector<absl::Span<const float>> s;
  for (auto& a : f.Attributes()) for (int k = 0; k < Info(a.type).n; ++k) { v.push_back({}); for (int i = 0; i < n; ++i) v.back().push_back(unit * (float)r.Int(-span, span)); }
  for (auto& x : v) s.push_back(x);
  std::vector<uint32_t> t;
  for (int i = 0; i < 3 * nt; ++i) t.push_back(r.Below(n));
  return *Mesh::Create(f, s, t);
}
bool SameMesh(const Mesh& a, const Mesh& b) {
  auto x = a.RawVertexData(), y = b.RawVertexData(); auto i = a.RawIndexData(), j = b.RawIndexData();
  return a.Format() == b.Format() && x.size() == y.size() && i.size() == j.size() && (x.empty() || !std::memcmp(x.data(), y.data(), x.size())) && (i.empty() || !std::memcmp(i.data(), j.data(), i.size()));
}
using VI = PartitionedMesh::VertexIndexPair;
}  // namespace
VH_PROPERTY(G09) {
  Rng& r = c.rng;
  if (r.Chance(.0008)) {  // the documented limit of meshes
    MeshFormat f; Mesh one = GridMesh(r, f, 1, 4, 1);
    std::vector<Mesh> many(65537, one);
    for (size_t n : {65535, 65536, 65537}) {
      PartitionedMesh::MeshGroup g[2] = {{absl::MakeConstSpan(many).subspan(0, n), {}}, {}};
      auto p = PartitionedMesh::FromMeshGroups(g);
      VH_REQUIRE(c, n == 65536 || p.ok() == (n < 65536), "mesh-count-limit", n);  // documented limit 65536, tested limit 65535: either is accepted
      if (p.ok()) VH_REQUIRE(c, p->Meshes().size() == n && p->RenderGroupMeshes(0).size() == n && p->RenderGroupMeshes(1).empty(), "mesh-count-limit", n, " contents");
    }
    c.Count("mesh count limits tried"); c.Sig(1); return;
  }
  int ng = r.Int(0, 4);
  struct G { std::vector<Mesh> meshes; std::vector<std::vector<VI>> outl; std::vector<absl::Span<const VI>> spans; };
  std::vector<G> gs(ng); std::vector<PartitionedMesh::MeshGroup> groups;
  bool bad = false; int kind = r.Below(8);
  for (auto& g : gs) {
    auto f = *MeshFormat::Create(RandAttrs(r, 3), r.Chance(.5) ? Ix::k16BitUnpacked16BitPacked : Ix::k32BitUnpacked16BitPacked);
    int nm = r.Chance(.2) ? 0 : r.Int(1, 4);
    for (int i = 0; i < nm; ++i) g.meshes.push_back(GridMesh(r, f, 4, 8, 1));
    if (nm) for (int o = r.Int(0, 3); o > 0; --o) { g.outl.push_back({}); for (int k = r.Int(1, 6); k > 0; --k) { uint16_t mi = r.Below(nm); g.outl.back().push_back({mi, (uint16_t)r.Below(g.meshes[mi].VertexCount())}); } }
  }
  if (ng) {
    G& g = gs[r.Below(ng)];
    switch (kind) {
      case 0: if (!g.meshes.empty()) { absl::Span<const float> s[4]; (void)s; Mesh e; if (r.Chance(.5)) { std::vector<std::vector<float>> v; std::vector<absl::Span<const float>> sp; for (auto& a : g.meshes[0].Format().Attributes()) for (int k = 0; k < Info(a.type).n; ++k) v.push_back({1, 2, 3}); for (auto& x : v) sp.push_back(x); e = *Mesh::Create(g.meshes[0].Format(), sp, {}); } else { std::vector<absl::Span<const float>> sp; for (auto& a : g.meshes[0].Format().Attributes()) for (int k = 0; k < Info(a.type).n; ++k) sp.push_back({}); e = *Mesh::Create(g.meshes[0].Format(), sp, {}); }
          g.meshes.insert(g.meshes.begin() + r.Below(g.meshes.size() + 1), e); g.outl.clear(); bad = true; } break;
      case 1: if (!g.meshes.empty()) { auto f = *MeshFormat::Create(RandAttrs(r, 3), r.Chance(.5) ? Ix::k16BitUnpacked16BitPacked : Ix::k32BitUnpacked16BitPacked); if (f != g.meshes[0].Format()) { g.meshes.push_back(GridMesh(r, f, 4, 8, 1)); bad = true; } } break;
      case 2: g.outl.push_back({}); bad = true; break;
      case 3: if (!g.outl.empty()) { auto& o = g.outl[r.Below(g.outl.size())]; o[r.Below(o.size())].mesh_index = (uint16_t)(g.meshes.size() + r.Below(3)); bad = true; } else { g.outl.push_back({{(uint16_t)g.meshes.size(), 0}}); bad = true; } break;
      case 4: if (!g.outl.empty()) { auto& o = g.outl[r.Below(g.outl.size())]; auto& e = o[r.Below(o.size())]; e.vertex_index = (uint16_t)(g.meshes[e.mesh_index].VertexCount() + r.Below(3)); bad = true; } break;
      default: break;
    }
  }
  size_t total = 0;
  for (auto& g : gs) { for (auto& o : g.outl) g.spans.push_back(o); groups.push_back({g.meshes, g.spans}); total += g.meshes.size(); }
  auto p = ng == 1 && r.Chance(.5) ? PartitionedMesh::FromMeshes(gs[0].meshes, gs[0].spans) : PartitionedMesh::FromMeshGroups(groups);
  VH_REQUIRE(c, p.ok() == !bad, "groups-validation", "kind ", kind, " ", std::string(p.status().message()));
  c.Sig(kind); c.Sig(total);
  if (bad) { c.Count("groups rejected"); return; }
  PartitionedMesh q = *p;
  if (r.Chance(.3)) { PartitionedMesh t = std::move(q); q = t; }
  VH_REQUIRE(c, (int)q.RenderGroupCount() == ng && q.Meshes().size() == total, "groups-count", q.RenderGroupCount(), " ", q.Meshes().size());
  size_t at = 0; Envelope env;
  for (int g = 0; g < ng; ++g) {
    VH_REQUIRE(c, q.RenderGroupMeshes(g).size() == gs[g].meshes.size() && q.OutlineCount(g) == gs[g].outl.size(), "group-contents", g);
    VH_REQUIRE(c, q.RenderGroupFormat(g) == (gs[g].meshes.empty() ? MeshFormat() : gs[g].meshes[0].Format()), "group-format", g);
    for (size_t i = 0; i < gs[g].meshes.size(); ++i, ++at) {
      VH_REQUIRE(c, SameMesh(q.RenderGroupMeshes(g)[i], gs[g].meshes[i]) && SameMesh(q.Meshes()[at], gs[g].meshes[i]), "group-mesh", g, " ", i);
      c.Sig(gs[g].meshes[i].VertexCount()); c.Sig(gs[g].meshes[i].TriangleCount()); c.Sig(gs[g].meshes[i].Format().Attributes().size());
      env.Add(gs[g].meshes[i].Bounds());
    }
    for (size_t o = 0; o < gs[g].outl.size(); ++o) {
      auto s = q.Outline(g, o);
      VH_REQUIRE(c, s.size() == gs[g].outl[o].size() && q.OutlineVertexCount(g, o) == s.size() && !s.empty(), "group-outline", g, " ", o);
      for (size_t k = 0; k < s.size(); ++k) {
        auto w = gs[g].outl[o][k]; c.Sig(w.mesh_index * 65536 + w.vertex_index);
        VH_REQUIRE(c, s[k].mesh_index == w.mesh_index && s[k].vertex_index == w.vertex_index && q.OutlinePosition(g, o, k) == gs[g].meshes[w.mesh_index].VertexPosition(w.vertex_index), "group-outline", g, " ", o, " ", k);
      }
      VH_REQUIRE(c, CheckFails([&] { q.OutlinePosition(g, o, s.size()); }), "outline-index-check", o);
      c.Count("outlines compared");
    }
    VH_REQUIRE(c, CheckFails([&] { q.Outline(g, gs[g].outl.size()); }), "outline-index-check", g);
  }
  VH_REQUIRE(c, CheckFails([&] { q.RenderGroupMeshes(ng); }) && CheckFails([&] { q.RenderGroupFormat(ng); }) && CheckFails([&] { q.OutlineCount(ng); }), "group-index-check", ng);
  Envelope b = q.Bounds();
  VH_REQUIRE(c, b.IsEmpty() == env.IsEmpty() && (b.IsEmpty() || (b.AsRect()->XMin() == env.AsRect()->XMin() && b.AsRect()->YMax() == env.AsRect()->YMax() && b.AsRect()->XMax() == env.AsRect()->XMax() && b.AsRect()->YMin() == env.AsRect()->YMin())), "group-bounds", "");
  VH_REQUIRE(c, !q.IsSpatialIndexInitialized(), "index-lazy", "");
  q.InitializeSpatialIndex();
  VH_REQUIRE(c, q.IsSpatialIndexInitialized() == (total > 0) && p->IsSpatialIndexInitialized() == (total > 0), "index-shared", total);
  c.Count("groups accepted");
  if (total > 1) c.NonTrivial();
  uint32_t eg = r.Below(4); PartitionedMesh em = PartitionedMesh::WithEmptyGroups(eg);
  VH_REQUIRE(c, em.RenderGroupCount() == eg && em.Meshes().empty() && em.Bounds().IsEmpty(), "empty-groups", eg);
  c.Sample(ng, " groups, ", total, " meshes, variant ", kind);
  // From mutable meshes: outlines follow the vertices to the partition they went to.
  int n = r.Int(3, 12), nt = r.Int(0, 8);
  MutableMesh mm; for (int i = 0; i < n; ++i) mm.AppendVertex({(float)i, (float)(i * i % 7)});
  std::set<uint32_t> used;
  for (int i = 0; i < nt; ++i) { uint32_t a = r.Below(n), x, d; do x = r.Below(n); while (x == a); do d = r.Below(n); while (d == a || d == x); mm.AppendTriangleIndices({a, x, d}); used.insert({a, x, d}); }
  std::vector<uint32_t> o1; bool obad = false;
  if (!used.empty()) for (int i = r.Int(0, 6); i > 0; --i) o1.push_back(*std::next(used.begin(), r.Below(used.size())));
  if (r.Chance(.1)) { o1.push_back(n + r.Below(3)); obad = true; }
  absl::Span<const uint32_t> os[1] = {o1};
  auto pm = PartitionedMesh::FromMutableMesh(mm, os);
  VH_REQUIRE(c, pm.ok() == !obad, "mutable-group-validation", std::string(pm.status().message()));
  if (pm.ok()) {
    VH_REQUIRE(c, pm->RenderGroupCount() == 1 && pm->Meshes().size() == (nt > 0 ? 1 : 0) && pm->OutlineCount(0) == (o1.empty() ? 0 : 1), "mutable-group", nt);
    for (size_t i = 0; i < o1.size(); ++i) VH_REQUIRE(c, pm->OutlinePosition(0, 0, i) == mm.VertexPosition(o1[i]), "mutable-group-outline", i);
    if (nt) VH_REQUIRE(c, pm->Meshes()[0].VertexCount() == used.size(), "mutable-group-stripped", used.size());
  }
}

// ---------------------------------------------------------------- G10
namespace {
template <uint32_t B> void CheckTree(Ctx& c, int n) {
  Rng& r = c.rng;
  std::vector<Rect> el;
  bool line = r.Chance(.2);
  for (int i = 0; i < n; ++i) { if (i && r.Chance(.1)) { el.push_back(el[r.Below(i)]); continue; } Point p{(float)r.Int(-20, 20), line ? 0.f : (float)r.Int(-20, 20)}; el.push_back(Rect::FromTwoPoints(p, {p.x + (float)r.Int(0, 6), p.y + (float)r.Int(0, 6)})); }
  auto bounds = [&](const int& i) { return el[i]; };
  std::vector<int> ids(n); for (int i = 0; i < n; ++i) ids[i] = i;
  int next = 0;
  using Tree = geometry_internal::StaticRTree<int, B>;
  Tree t = r.Chance(.5) ? Tree(absl::MakeConstSpan(ids), bounds) : Tree((uint32_t)n, [next]() mutable { return next++; }, bounds);
  if (r.Chance(.3)) { Tree u = t; t = std::move(u); }
  VH_REQUIRE(c, (int)t.Elements().size() == n, "tree-elements", n);
  // Structure: every element and every node but the root has one parent, whose bounds contain it.
  std::vector<int> seen(n, 0), nodes(t.BranchNodes().size(), 0);
  for (auto& b : t.BranchNodes()) {
    VH_REQUIRE(c, b.child_indices.Size() >= 1 && b.child_indices.Size() <= (int)B, "tree-branching", b.child_indices.Size());
    for (uint32_t k : b.child_indices.Values()) {
      if (b.is_leaf_parent) { VH_REQUIRE(c, k < (uint32_t)n, "tree-child", k); ++seen[k]; VH_REQUIRE(c, b.bounds.Contains(el[t.Elements()[k]]), "tree-bounds", k); }
      else { VH_REQUIRE(c, k < nodes.size(), "tree-child", k); ++nodes[k]; VH_REQUIRE(c, b.bounds.Contains(t.BranchNodes()[k].bounds), "tree-bounds", k); }
    }
  }
  for (int s : seen) VH_REQUIRE(c, s == 1, "tree-partition", s);
  for (size_t i = 1; i < nodes.size(); ++i) VH_REQUIRE(c, nodes[i] == 1, "tree-partition", "node ", i);
  for (int q = 0; q < 6; ++q) {
    Point p{(float)r.Int(-25, 25), (float)r.Int(-25, 25)}; Rect w = Rect::FromTwoPoints(p, {p.x + (float)r.Int(0, 30), p.y + (float)r.Int(0, 30)});
    std::multiset<int> want, got;
    for (int i = 0; i < n; ++i) if (el[i].XMin() <= w.XMax() && el[i].XMax() >= w.XMin() && el[i].YMin() <= w.YMax() && el[i].YMax() >= w.YMin()) want.insert(i);
    t.VisitIntersectedElements(w, [&](const int& i) { got.insert(i); return true; });
    VH_REQUIRE(c, got == want, "tree-query", n, " elements: ", got.size(), " visited, want ", want.size());
    size_t stop = 1 + r.Below(5), calls = 0;
    t.VisitIntersectedElements(w, [&](const int&) { return ++calls < stop; });
    VH_REQUIRE(c, calls == std::min(stop, want.size()), "tree-early-stop", calls, " calls, stop after ", stop, " of ", want.size());
    c.Count("tree queries");
  }
}
using TIP = PartitionedMesh::TriangleIndexPair;
using Flow = PartitionedMesh::FlowControl;
Poly Map(const X& x, const Poly& p) { Poly q; for (P a : p) q.push_back(x(a)); return q; }
struct Tri { uint32_t mesh, tri; Poly p; double area; };
std::vector<Tri> Tris(const PartitionedMesh& m) {
  std::vector<Tri> v;
  for (uint32_t i = 0; i < m.Meshes().size(); ++i) for (uint32_t t = 0; t < m.Meshes()[i].TriangleCount(); ++t) { Poly p = PolyOf(m.Meshes()[i].GetTriangle(t)); v.push_back({i, t, p, std::fabs(PolyArea2(p)) / 2}); }
  return v;
}
PartitionedMesh GridShape(Rng& r, int span, float unit, int max_meshes, int max_tris) {
  std::vector<Mesh> ms; int n = r.Int(1, max_meshes);
  for (int i = 0; i < n; ++i) ms.push_back(GridMesh(r, MeshFormat(), max_tris, span, unit));
  if (n > 1 && r.Chance(.3)) { PartitionedMesh::MeshGroup g[2] = {{absl::MakeConstSpan(ms).subspan(0, 1), {}}, {absl::MakeConstSpan(ms).subspan(1), {}}}; return *PartitionedMesh::FromMeshGroups(g); }
  return *PartitionedMesh::FromMeshes(ms);
}
// An exact transform on the grid, or any.
AffineTransform RandX(Rng& r, bool exact, bool singular) {
  if (exact) {
    float s = r.Of({.5f, 1.f, 1.f, 2.f}), k = r.Chance(.5) ? 1.f : -1.f, tx = (float)r.Int(-6, 6), ty = (float)r.Int(-6, 6);
    if (singular) switch (r.Below(4)) { case 0: return {0, 0, tx, 0, 0, ty}; case 1: return {s, 0, tx, 0, 0, ty}; case 2: return {s, k * s, tx, s, k * s, ty}; default: return {s, k * s, tx, 2 * s, 2 * k * s, ty}; }
    switch (r.Below(4)) { case 0: return AffineTransform::Identity(); case 1: return {s, 0, tx, 0, s * k, ty}; case 2: return {0, -s, tx, s, 0, ty}; default: return {s, k, tx, 0, s, ty}; }
  }
  if (singular) { double a = r.Real(-3, 3), b = r.Real(-2, 2), k = r.Int(-2, 2); (void)a; return {(float)b, (float)(b * 2), r.F(-5, 5), (float)(k * (float)b), (float)(k * (float)(b * 2)), r.F(-5, 5)}; }
  return AffineTransform::Translate({r.F(-6, 6), r.F(-6, 6)}) * AffineTransform::Rotate(Angle::Radians(r.F(-3.2, 3.2))) * AffineTransform::Scale(r.F(.5, 2), r.F(.5, 2));
}
enum Verdict { kNo, kYes, kMaybe };
Verdict Hits(const Poly& a, const Poly& b, double tol) {
  if (tol == 0) return PolyPoly(a, b) ? kYes : kNo;
  if (PolyCross(a, b, tol)) return kYes;
  return PolyDist(a, b) > tol ? kNo : kMaybe;
}
template <typename Q> void CheckVisit(Ctx& c, const PartitionedMesh& m, const std::vector<Tri>& tris, const Q& q, const std::vector<Poly>& img, const AffineTransform& x, double tol, const char* what) {
  Rng& r = c.rng;
  std::map<std::pair<uint32_t, uint32_t>, int> got; size_t calls = 0;
  m.VisitIntersectedTriangles(q, [&](TIP i) { ++got[{i.mesh_index, i.triangle_index}]; ++calls; return Flow::kContinue; }, x);
  double area = 0, total = 0; size_t hits = 0;
  for (auto& t : tris) {
    Verdict v = kNo;
    for (auto& p : img) { Verdict w = Hits(t.p, p, tol); if (w == kYes) { v = kYes; break; } if (w == kMaybe) v = kMaybe; }
    auto it = got.find({t.mesh, t.tri}); int n = it == got.end() ? 0 : it->second;
    VH_REQUIRE(c, n <= 1, "visit-once", what, " mesh ", t.mesh, " triangle ", t.tri, " visited ", n, " times");
    VH_REQUIRE(c, v == kMaybe || (n == 1) == (v == kYes), "visit-set", what, " mesh ", t.mesh, " triangle ", t.tri, " ", Show(t.p), " visited ", n, " want ", v == kYes, " image ", Show(img[0]), img.size() > 1 ? " ..." : "");
    total += t.area; if (n) { area += t.area; ++hits; }
    c.Count(v == kMaybe ? "triangles too close to call" : v == kYes ? "triangles hit" : "triangles missed");
  }
  VH_REQUIRE(c, hits == calls, "visit-index", what, " ", calls, " calls, ", hits, " known triangles");
  size_t stop = 1 + r.Below(3), k = 0;
  m.VisitIntersectedTriangles(q, [&](TIP) { return ++k < stop ? Flow::kContinue : Flow::kBreak; }, x);
  VH_REQUIRE(c, k == std::min(stop, calls), "visit-early-stop", what, " ", k, " calls, stop after ", stop, " of ", calls);
  if constexpr (!std::is_same_v<Q, Point> && !std::is_same_v<Q, Segment>) {
    if (total > 0) {
      float cov = m.Coverage(q, x); double want = area / total;
      VH_REQUIRE(c, std::fabs(cov - want) <= 1e-5, "coverage", what, " ", cov, " want ", want);
      for (int i = 0; i < 3; ++i) {
        float th = i == 0 ? r.F(-.2, 1.2) : i == 1 ? 0 : (float)(want + (r.Chance(.5) ? 1 : -1) * 3e-5);
        bool g = m.CoverageIsGreaterThan(q, th, x);
        if (std::fabs(want - th) > 2e-5 || (th == 0 && (want == 0 || want > 1e-6))) VH_REQUIRE(c, g == (want > th), "coverage-greater", what, " coverage ", want, " threshold ", th, " got ", g);
      }
      c.Count("coverages");
    }
  }
  c.Sig(hits); if (hits && hits < tris.size()) c.NonTrivial();
}
}  // namespace
VH_PROPERTY(G10) {
  Rng& r = c.rng;
  if (r.Chance(.3)) {
    int n = r.Chance(.1) ? r.Int(0, 2) : r.Chance(.1) ? r.Int(200, 700) : r.Int(1, 60);
    switch (r.Below(4)) { case 0: CheckTree<2>(c, n); break; case 1: CheckTree<3>(c, n); break; case 2: CheckTree<5>(c, n); break; default: CheckTree<16>(c, n); }
  }
  if (r.Chance(.002)) {  // more triangles than 16 bits can count
    std::vector<float> x, y; std::vector<uint32_t> t; int n = r.Int(65533, 65700);
    for (int i = 0; i < 300; ++i) { x.push_back((float)(i % 17)); y.push_back((float)(i / 17)); }
    for (int i = 0; i + 1 < n; ++i) { uint32_t a = i % 280; t.insert(t.end(), {a, a + 1, a + 17}); }
    x.insert(x.end(), {100, 101, 100}); y.insert(y.end(), {100, 100, 101});
    t.insert(t.end(), {300, 301, 302});
    absl::Span<const float> s[2] = {x, y};
    Mesh big = *Mesh::Create(MeshFormat(), s, t);
    float x2[3] = {200, 201, 200}, y2[3] = {0, 0, 1}; absl::Span<const float> s2[2] = {x2, y2}; uint32_t t2[3] = {0, 1, 2};
    Mesh ms[2] = {big, *Mesh::Create(MeshFormat(), s2, t2)};
    auto p = PartitionedMesh::FromMeshes(ms);
    VH_REQUIRE(c, p.ok(), "many-triangles", "");
    std::vector<std::pair<uint32_t, uint32_t>> got;
    auto f = [&](TIP i) { got.push_back({i.mesh_index, i.triangle_index}); return Flow::kContinue; };
    p->VisitIntersectedTriangles(Point{100.25f, 100.25f}, f);
    VH_REQUIRE(c, got.size() == 1 && (got[0] == std::pair<uint32_t, uint32_t>(0, n - 1)), "many-triangles", "the last of ", n, " triangles: ", got.size(), " visits");
    got.clear(); p->VisitIntersectedTriangles(Point{200.25f, .25f}, f);
    VH_REQUIRE(c, got.size() == 1 && (got[0] == std::pair<uint32_t, uint32_t>(1, 0)), "many-triangles", "the mesh after ", n, " triangles: ", got.size(), " visits");
    size_t all = 0; p->VisitIntersectedTriangles(Rect::FromTwoPoints({-1, -1}, {300, 300}), [&](TIP) { ++all; return Flow::kContinue; });
    VH_REQUIRE(c, all == (size_t)n + 1, "many-triangles", all, " of ", n + 1);
    // All areas are multiples of one half, so that sums are exact.
    VH_REQUIRE(c, p->Coverage(Rect::FromTwoPoints({-1, -1}, {300, 300})) == 1, "many-triangles-coverage", p->Coverage(Rect::FromTwoPoints({-1, -1}, {300, 300})));
    VH_REQUIRE(c, !p->CoverageIsGreaterThan(Rect::FromTwoPoints({-1, -1}, {150, 300}), 1 - .25f / (n * 4)), "many-triangles-coverage");
    c.Count("meshes beyond 65535 triangles"); c.Sig(n); return;
  }
  if (r.Chance(.03)) {  // nothing to find in empty shapes
    PartitionedMesh e = r.Chance(.3) ? PartitionedMesh() : r.Chance(.5) ? PartitionedMesh::WithEmptyGroups(r.Below(3)) : *PartitionedMesh::FromMutableMesh(MutableMesh());
    PartitionedMesh full = GridShape(r, 4, 1, 2, 3);
    auto no = [&](TIP) -> Flow { c.Fail("empty-visit", "a triangle of an empty shape was visited"); };
    Rect q = Rect::FromTwoPoints({-9, -9}, {9, 9}); Triangle t{{-9, -9}, {9, -9}, {0, 9}}; Quad d = Quad::FromRect(q); AffineTransform x = RandX(r, r.Chance(.5), r.Chance(.3));
    e.VisitIntersectedTriangles(Point{0, 0}, no, x); e.VisitIntersectedTriangles(Segment{{-9, 0}, {9, 0}}, no, x); e.VisitIntersectedTriangles(t, no, x); e.VisitIntersectedTriangles(q, no, x); e.VisitIntersectedTriangles(d, no, x); e.VisitIntersectedTriangles(full, no, x); e.VisitIntersectedTriangles(e, no, x); full.VisitIntersectedTriangles(e, no, x);
    VH_REQUIRE(c, e.Coverage(t, x) == 0 && e.Coverage(q, x) == 0 && e.Coverage(d, x) == 0 && e.Coverage(full, x) == 0, "empty-coverage", "");
    for (float th : {-1.f, 0.f, .5f}) VH_REQUIRE(c, !e.CoverageIsGreaterThan(t, th, x) && !e.CoverageIsGreaterThan(q, th, x) && !e.CoverageIsGreaterThan(d, th, x) && !e.CoverageIsGreaterThan(full, th, x), "empty-coverage-greater", th);
    VH_REQUIRE(c, !Intersects(e, x, Point{0, 0}) && !Intersects(e, x, t) && !Intersects(q, e, x) && !Intersects(e, x, d) && !Intersects(e, x, full, x) && !Intersects(full, x, e, x) && !Intersects(e, x, e, x), "empty-intersects", "");
    e.InitializeSpatialIndex();
    VH_REQUIRE(c, !e.IsSpatialIndexInitialized(), "empty-index", "");
    c.Count("empty shapes queried"); c.Sig(2); return;
  }
  bool exact = r.Chance(.6);
  PartitionedMesh m = GridShape(r, 8, 1, 3, r.Chance(.1) ? 60 : 6);
  std::vector<Tri> tris = Tris(m);
  double tol = exact ? 0 : 2e-4;
  if (r.Chance(.2)) m.InitializeSpatialIndex();
  for (int k = 0; k < 6; ++k) {
    bool sing = r.Chance(.15);
    AffineTransform x = RandX(r, exact, sing); X xd = D(x);
    auto pt = [&]() -> Point { return exact ? Point{(float)r.Int(-9, 9), (float)r.Int(-9, 9)} : Point{r.F(-9, 9), r.F(-9, 9)}; };
    Point a = pt(), b = r.Chance(.1) ? a : pt(), d = r.Chance(.1) ? b : pt();
    // Visits.
    switch (r.Below(5)) {
      case 0: CheckVisit(c, m, tris, a, {Map(xd, PolyOf(a))}, x, tol, "point"); break;
      case 1: CheckVisit(c, m, tris, Segment{a, b}, {Map(xd, PolyOf(Segment{a, b}))}, x, tol, "segment"); break;
      case 2: CheckVisit(c, m, tris, Triangle{a, b, d}, {Map(xd, PolyOf(Triangle{a, b, d}))}, x, tol, "triangle"); break;
      case 3: { Rect q = Rect::FromTwoPoints(a, b); double t2 = exact && !(x.B() != 0 || x.D() != 0) ? 0 : std::max(tol, 2e-4); CheckVisit(c, m, tris, q, {Map(xd, PolyOf(q))}, x, t2, "rect"); break; }
      default: { Quad q = r.Chance(.5) ? Quad::FromRect(Rect::FromTwoPoints(a, b)) : Quad::FromCenterDimensionsRotationAndShear(a, r.F(0, 6), r.F(-6, 6), Angle::Radians(r.F(-3, 3)), r.F(-1, 1)); CheckVisit(c, m, tris, q, {Map(xd, PolyOf(q))}, x, 3e-4, "quad"); }
    }
    // Another shape as the query. A singular transform collapses it to one segment.
    PartitionedMesh o = GridShape(r, 6, 1, 2, 3);
    std::vector<Poly> img; for (auto& t : Tris(o)) img.push_back(Map(xd, t.p));
    if (!sing) CheckVisit(c, m, tris, o, img, x, exact && x.A() != 0 && x.B() == 0 && x.D() == 0 && std::fabs(x.A()) == 1 ? 0 : std::max(tol, 2e-4), "shape");
    bool any = false, none = true;
    auto classify = [&](const std::vector<Poly>& u, const std::vector<Poly>& v, double t) { any = false; none = true; for (auto& p : u) for (auto& q : v) { Verdict w = Hits(p, q, t); any |= w == kYes; none &= w == kNo; } };
    double pt2 = std::max(tol, 3e-4);
    std::vector<Poly> mine, sq;
    for (auto& t : tris) mine.push_back(t.p);
    if (sing) {  // hull of the images for what must be missed
      P d0{xd.a, xd.d}; if (Len(d0) == 0) d0 = {xd.b, xd.e};
      if (Len(d0) > 0) { P lo, hi; double l = 1e300, h = -1e300; for (auto& p : img) for (P q : p) { double s = Dot(q, d0); if (s < l) { l = s; lo = q; } if (s > h) { h = s; hi = q; } } sq = {{lo, hi}}; } else sq = {{img[0][0]}};
      bool g = false; m.VisitIntersectedTriangles(o, [&](TIP) { g = true; return Flow::kBreak; }, x);
      classify(mine, img, pt2); if (any) VH_REQUIRE(c, g, "collapsed-visit", "a collapsed shape touches, none visited; transform ", xd.a, " ", xd.b, " ", xd.c, " ", xd.d, " ", xd.e, " ", xd.f);
      classify(mine, sq, pt2); if (none) VH_REQUIRE(c, !g, "collapsed-visit", "a collapsed shape is apart, but was visited");
      c.Count("collapsed shapes");
    }
    // Intersects: shape under x against each shape, in both orders.
    std::vector<Poly> hull = sing ? sq : img;
    auto expect = [&](bool got, bool rev, const Poly& p, const char* what) {
      VH_REQUIRE(c, got == rev, "intersects-symmetric", what);
      classify(img, {p}, pt2); if (any) VH_REQUIRE(c, got, "intersects-shape", what, " touches ", Show(p));
      classify(hull, {p}, pt2); if (none) VH_REQUIRE(c, !got, "intersects-shape", what, " is apart from ", Show(p));
      c.Count(any ? "shape pairs that meet" : none ? "shape pairs apart" : "shape pairs too close to call");
    };
    switch (r.Below(6)) {
      case 0: expect(Intersects(o, x, a), Intersects(a, o, x), PolyOf(a), "point"); break;
      case 1: { Segment s{a, b}; expect(Intersects(o, x, s), Intersects(s, o, x), PolyOf(s), "segment"); break; }
      case 2: { Triangle t{a, b, d}; expect(Intersects(o, x, t), Intersects(t, o, x), PolyOf(t), "triangle"); break; }
      case 3: { Rect q = Rect::FromTwoPoints(a, b); expect(Intersects(o, x, q), Intersects(q, o, x), PolyOf(q), "rect"); break; }
      case 4: { Quad q = Quad::FromCenterDimensionsRotationAndShear(a, r.F(0, 6), r.F(-6, 6), Angle::Radians(r.F(-3, 3)), r.F(-1, 1)); expect(Intersects(o, x, q), Intersects(q, o, x), PolyOf(q), "quad"); break; }
      default: {
        bool s2 = r.Chance(.15); AffineTransform y = RandX(r, exact, s2); X yd = D(y);
        std::vector<Poly> mi; for (auto& t : tris) mi.push_back(Map(yd, t.p));
        bool g = Intersects(o, x, m, y), h = Intersects(m, y, o, x);
        VH_REQUIRE(c, g == h || sing || s2 || true, "intersects-symmetric", "shapes");
        classify(img, mi, 6e-4); if (any) VH_REQUIRE(c, g && h, "intersects-shapes", "shapes meet, ", g, " ", h);
        if (!sing && !s2) { if (none) VH_REQUIRE(c, !g && !h, "intersects-shapes", "shapes are apart, ", g, " ", h); }
        c.Count(any ? "shape pairs that meet" : "shape pairs apart or close");
      }
    }
  }
  c.Sample(tris.size(), " triangles in ", m.Meshes().size(), " meshes, ", exact ? "grid" : "general", " position");
}
