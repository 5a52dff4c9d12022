// Brushes: B01 validation, equality and setters, B02 easing functions.
#include <algorithm>
#include <set>
#include "absl/hash/hash.h"
#include "geo.h"
#include "ink/strokes/internal/easing_implementation.h"
#include "strokegen.h"
#include "vh_main.h"
namespace vh {
namespace {
using ink::Color;
using ink::Uri;
using AttrId = ink::MeshFormat::AttributeId;
using ink::strokes_internal::EasingImplementation;
constexpr double kD = 1e300;
// One property of a brush, with the interval of its valid values. All must be finite.
struct Field {
  const char* name;
  std::function<double()> get;
  std::function<void(double)> set;
  double lo = -kD, hi = kD;
  bool open_lo = false;
  int enumerators = 0;  // > 0: an enum; the values are 0..enumerators-1
  bool on_off = false;  // a bool
  bool Valid() const {
    double v = get();
    if (on_off) return true;
    if (enumerators) return v >= 0 && v < enumerators;
    return std::isfinite(v) && (open_lo ? v > lo : v >= lo) && v <= hi;
  }
};
using Fields = std::vector<Field>;
void F32(Fields& f, const char* n, float& v, double lo = -kD, double hi = kD, bool open = false) { f.push_back({n, [&v] { return v; }, [&v](double x) { v = (float)x; }, lo, hi, open}); }
void Ang(Fields& f, const char* n, Angle& v, double lo = -kD, double hi = kD) { f.push_back({n, [&v] { return v.ValueInRadians(); }, [&v](double x) { v = Angle::Radians((float)x); }, lo, hi}); }
void Dur(Fields& f, const char* n, Duration32& v, double lo = -kD) { f.push_back({n, [&v] { return v.ToSeconds(); }, [&v](double x) { v = Duration32::Seconds((float)x); }, lo}); }
template <typename E> void Enum(Fields& f, const char* n, E& v, int count) { f.push_back({n, [&v] { return (double)(int)v; }, [&v](double x) { v = (E)(int)x; }, 0, 0, false, count}); }
void Bool(Fields& f, const char* n, bool& v) { f.push_back({n, [&v] { return (double)v; }, [&v](double x) { v = x != 0; }, 0, 1, false, 0, true}); }

void ListEasing(Fields& f, EasingFunction& e) {
  if (auto* p = std::get_if<EasingFunction::Predefined>(&e.parameters)) Enum(f, "predefined", *p, 7);
  if (auto* b = std::get_if<EasingFunction::CubicBezier>(&e.parameters)) F32(f, "x1", b->x1, 0, 1), F32(f, "y1", b->y1), F32(f, "x2", b->x2, 0, 1), F32(f, "y2", b->y2);
  if (auto* l = std::get_if<EasingFunction::Linear>(&e.parameters)) for (auto& p : l->points) F32(f, "point x", p.x, 0, 1), F32(f, "point y", p.y);
  if (auto* s = std::get_if<EasingFunction::Steps>(&e.parameters)) {
    f.push_back({"step_count", [s] { return (double)s->step_count; }, [s](double x) { s->step_count = x != x ? 0 : (int32_t)std::clamp(x, -2147483648., 2147483647.); }, s->step_position == EasingFunction::StepPosition::kJumpNone ? 2. : 1.});
    Enum(f, "step_position", s->step_position, 4);
  }
}
bool EasingShapeOk(const EasingFunction& e) {
  if (auto* l = std::get_if<EasingFunction::Linear>(&e.parameters)) for (size_t i = 1; i < l->points.size(); ++i) if (l->points[i].x < l->points[i - 1].x) return false;
  return true;
}
void ListNode(Fields& f, BrushBehavior::Node& n) {
  if (auto* s = std::get_if<BrushBehavior::SourceNode>(&n)) { Enum(f, "source", s->source, kSources); Enum(f, "out_of_range", s->source_out_of_range_behavior, 3); for (float& v : s->source_value_range) F32(f, "source range", v); }
  if (auto* s = std::get_if<BrushBehavior::ConstantNode>(&n)) F32(f, "constant", s->value);
  if (auto* s = std::get_if<BrushBehavior::FallbackFilterNode>(&n)) Enum(f, "is_fallback_for", s->is_fallback_for, 4);
  if (auto* s = std::get_if<BrushBehavior::ToolTypeFilterNode>(&n)) for (bool* b : {&s->enabled_tool_types.unknown, &s->enabled_tool_types.mouse, &s->enabled_tool_types.touch, &s->enabled_tool_types.stylus}) Bool(f, "tool", *b);
  if (auto* s = std::get_if<BrushBehavior::DampingNode>(&n)) { Enum(f, "damping_source", s->damping_source, 3); F32(f, "damping_gap", s->damping_gap, 0); }
  if (auto* s = std::get_if<BrushBehavior::ResponseNode>(&n)) ListEasing(f, s->response_curve);
  if (auto* s = std::get_if<BrushBehavior::BinaryOpNode>(&n)) Enum(f, "operation", s->operation, 2);
  if (auto* s = std::get_if<BrushBehavior::InterpolationNode>(&n)) Enum(f, "interpolation", s->interpolation, 2);
  if (auto* s = std::get_if<BrushBehavior::TargetNode>(&n)) { Enum(f, "target", s->target, kTargets); for (float& v : s->target_modifier_range) F32(f, "target range", v); }
}
bool NodeShapeOk(const BrushBehavior::Node& n) {
  if (auto* s = std::get_if<BrushBehavior::SourceNode>(&n)) {
    bool since = s->source == Src::kTimeSinceInputInSeconds || s->source == Src::kTimeSinceInputInMillis;
    return s->source_value_range[0] != s->source_value_range[1] && (!since || s->source_out_of_range_behavior == BrushBehavior::OutOfRange::kClamp);
  }
  if (auto* s = std::get_if<BrushBehavior::TargetNode>(&n)) return s->target_modifier_range[0] != s->target_modifier_range[1];
  if (auto* s = std::get_if<BrushBehavior::ToolTypeFilterNode>(&n)) { auto e = s->enabled_tool_types; return e.unknown || e.mouse || e.touch || e.stylus; }
  if (auto* s = std::get_if<BrushBehavior::ResponseNode>(&n)) return EasingShapeOk(s->response_curve);
  return true;
}
bool StackOk(const BrushBehavior& b) {
  int depth = 0;
  for (const auto& n : b.nodes) {
    static constexpr int kIn[] = {0, 0, 1, 1, 1, 1, 2, 3, 1};
    if (depth < kIn[n.index()]) return false;
    depth += (n.index() == 8 ? 0 : 1) - kIn[n.index()];
  }
  return depth == 0;
}
void ListTip(Fields& f, BrushTip& t) {
  F32(f, "scale x", t.scale.x, 0), F32(f, "scale y", t.scale.y, 0), F32(f, "corner_rounding", t.corner_rounding, 0, 1);
  double q = (float)(M_PI / 2);
  Ang(f, "slant", t.slant, -q, q);
  F32(f, "pinch", t.pinch, 0, 1);
  Ang(f, "rotation", t.rotation);
  F32(f, "opacity_multiplier", t.opacity_multiplier, 0, 2), F32(f, "gap_distance", t.particle_gap_distance_scale, 0);
  Dur(f, "gap_duration", t.particle_gap_duration, 0);
  for (auto& b : t.behaviors) for (auto& n : b.nodes) ListNode(f, n);
}
bool TipShapeOk(const BrushTip& t) {
  if (t.scale.x == 0 && t.scale.y == 0) return false;
  for (const auto& b : t.behaviors) { if (!StackOk(b)) return false; for (const auto& n : b.nodes) if (!NodeShapeOk(n)) return false; }
  return true;
}
void ListPaint(Fields& f, BrushPaint& p) {
  for (auto& l : p.texture_layers) {
    Enum(f, "mapping", l.mapping, 2), Enum(f, "origin", l.origin, 3), Enum(f, "size_unit", l.size_unit, 3), Enum(f, "wrap_x", l.wrap_x, 3), Enum(f, "wrap_y", l.wrap_y, 3), Enum(f, "blend_mode", l.blend_mode, 12);
    F32(f, "size x", l.size.x, 0, kD, true), F32(f, "size y", l.size.y, 0, kD, true);
    F32(f, "offset x", l.offset.x), F32(f, "offset y", l.offset.y);
    Ang(f, "layer rotation", l.rotation), Ang(f, "rotation_jitter", l.rotation_jitter);
    F32(f, "size_jitter x", l.size_jitter.x, 0), F32(f, "size_jitter y", l.size_jitter.y, 0), F32(f, "offset_jitter x", l.offset_jitter.x, 0, 1), F32(f, "offset_jitter y", l.offset_jitter.y, 0, 1);
    F32(f, "layer opacity", l.opacity, 0, 1);
    for (auto& k : l.keyframes) {
      F32(f, "progress", k.progress, 0, 1);
      if (k.size) F32(f, "key size x", k.size->x, 0, kD, true), F32(f, "key size y", k.size->y, 0, kD, true);
      if (k.offset) F32(f, "key offset x", k.offset->x, 0, 1), F32(f, "key offset y", k.offset->y, 0, 1);
      if (k.rotation) Ang(f, "key rotation", *k.rotation);
      if (k.opacity) F32(f, "key opacity", *k.opacity, 0, 1);
    }
  }
}
bool PaintShapeOk(const BrushPaint& p) {
  for (const auto& l : p.texture_layers) {
    if (l.color_texture_uri.GetAssetType() != Uri::AssetType::kTexture || l.mapping != p.texture_layers[0].mapping) return false;
    if (!(l.size_jitter.x <= l.size.x && l.size_jitter.y <= l.size.y)) return false;
  }
  return true;
}
BrushPaint RichPaint(Rng& r) {
  BrushPaint p;
  int n = r.Int(0, 3);
  auto mapping = (BrushPaint::TextureMapping)r.Below(2);
  for (int i = 0; i < n; ++i) {
    BrushPaint::TextureLayer l{.color_texture_uri = *Uri::Parse(r.Of({"/texture:a", "/texture:b:2"})), .mapping = mapping};
    l.origin = (BrushPaint::TextureOrigin)r.Below(3), l.size_unit = (BrushPaint::TextureSizeUnit)r.Below(3), l.wrap_x = (BrushPaint::TextureWrap)r.Below(3), l.wrap_y = (BrushPaint::TextureWrap)r.Below(3), l.blend_mode = (BrushPaint::BlendMode)r.Below(12);
    l.size = {r.F(.1, 5), r.F(.1, 5)};
    l.offset = {r.F(0, 1), r.F(0, 1)};
    l.rotation = Angle::Radians(r.F(-7, 7)), l.rotation_jitter = Angle::Radians(r.F(-7, 7));
    l.size_jitter = {r.Chance(.2) ? l.size.x : r.F(0, l.size.x), r.F(0, l.size.y)};
    l.offset_jitter = {r.F(0, 1), r.F(0, 1)};
    l.opacity = r.F(0, 1);
    for (int k = r.Int(0, 2); k > 0; --k) {
      BrushPaint::TextureKeyframe q{.progress = r.F(0, 1)};
      if (r.Chance(.5)) q.size = ink::Vec{r.F(.1, 3), r.F(.1, 3)};
      if (r.Chance(.5)) q.offset = ink::Vec{r.F(0, 1), r.F(0, 1)};
      if (r.Chance(.5)) q.rotation = Angle::Radians(r.F(-7, 7));
      if (r.Chance(.5)) q.opacity = r.F(0, 1);
      l.keyframes.push_back(q);
    }
    p.texture_layers.push_back(l);
  }
  return p;
}
void ListCoat(Fields& f, BrushCoat& c) { for (auto& t : c.tips) ListTip(f, t); ListPaint(f, c.paint); }
bool CoatOk(BrushCoat& c) {
  if (c.tips.size() != 1) return false;
  Fields f;
  ListCoat(f, c);
  for (const Field& x : f) if (!x.Valid()) return false;
  return TipShapeOk(c.tips[0]) && PaintShapeOk(c.paint);
}
// Changes a field to a different value; returns false if it came out equal.
bool Perturb(Rng& r, Field& f) {
  double was = f.get();
  if (f.on_off) f.set(!was);
  else if (f.enumerators) f.set(r.Chance(.5) ? (int)r.Below(f.enumerators) : r.Of({-1, f.enumerators, f.enumerators + 1, 100, -128, 127}));
  else switch (r.Below(5)) {
    case 0: f.set(f.lo == -kD ? (double)AnyFloat(r) : r.Chance(.5) ? f.lo : (double)std::nextafterf((float)f.lo, -kInf)); break;
    case 1: f.set(f.hi == kD ? (double)AnyFloat(r) : r.Chance(.5) ? f.hi : (double)std::nextafterf((float)f.hi, kInf)); break;
    case 2: f.set(r.Of({kNan, kInf, -kInf})); break;
    case 3: f.set(r.F(0, 1)); break;
    default: f.set(AnyFloat(r));
  }
  double now = f.get();
  return !(now == was);
}
std::set<int> WantIds(const BrushCoat& c) {
  std::set<int> w = {(int)AttrId::kPosition, (int)AttrId::kSideDerivative, (int)AttrId::kSideLabel, (int)AttrId::kForwardDerivative, (int)AttrId::kForwardLabel, (int)AttrId::kOpacityShift};
  for (const auto& t : c.tips) for (const auto& b : t.behaviors) for (const auto& n : b.nodes)
    if (auto* g = std::get_if<BrushBehavior::TargetNode>(&n)) if (g->target == Tgt::kHueOffsetInRadians || g->target == Tgt::kSaturationMultiplier || g->target == Tgt::kLuminosity) w.insert((int)AttrId::kColorShiftHsl);
  for (const auto& l : c.paint.texture_layers) if (l.mapping == BrushPaint::TextureMapping::kWinding) w.insert((int)AttrId::kSurfaceUv);
  return w;
}
bool SameCoats(absl::Span<const BrushCoat> a, const std::vector<BrushCoat>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < b.size(); ++i) if (!(a[i].tips == b[i].tips) || !(a[i].paint == b[i].paint)) return false;
  return true;
}
VH_PROPERTY(B01) {
  Rng& r = c.rng;
  // Coats that are valid, then changed in a few places.
  std::vector<BrushCoat> coats;
  BrushOpts o;
  o.hostile = r.Chance(.3);
  int n = r.Chance(.1) ? r.Int(9, 12) : r.Int(0, 3);
  for (int i = 0; i < n; ++i) coats.push_back({{RandTip(r, o)}, RichPaint(r)});
  int changes = r.Chance(.3) ? 0 : r.Int(1, 2);
  std::string what;
  for (int k = 0; k < changes && n; ++k) {
    BrushCoat& coat = coats[r.Below(n)];
    if (coat.tips.empty()) continue;
    switch (r.Chance(.75) ? 0 : r.Int(1, 6)) {
      case 0: {
        Fields f;
        ListCoat(f, coat);
        Field& x = f[r.Below(f.size())];
        // Equality notices every property.
        BrushCoat before = coat;
        double was = x.get();
        bool changed = Perturb(r, x);
        what += Cat(x.name, " from ", was, " to ", x.get(), "; ");
        bool same = before.tips == coat.tips && before.paint == coat.paint, differ = before.tips != coat.tips || before.paint != coat.paint;
        // (A coat that already holds a NaN, from the previous change, never equals itself.)
        bool nan = false;
        for (const Field& y : f) if (&y != &x) nan |= std::isnan(y.get());
        nan |= std::isnan(was);
        VH_REQUIRE(c, nan || (same != changed && differ == changed), "equality", what, same, " ", differ);
        if (same && coat.paint.texture_layers.size()) VH_REQUIRE(c, absl::HashOf(before.paint) == absl::HashOf(coat.paint), "paint-hash", what);
        c.Count("properties_changed");
        break;
      }
      case 1: if (auto& b = coat.tips[0].behaviors; !b.empty()) { auto& ns = b[r.Below(b.size())].nodes; if (!ns.empty()) ns.erase(ns.begin() + r.Below(ns.size())), what += "node removed; "; } break;
      case 2: if (auto& b = coat.tips[0].behaviors; !b.empty()) { auto& ns = b[r.Below(b.size())].nodes; BrushBehavior more = RandBehavior(r, false); ns.insert(ns.begin() + r.Below(ns.size() + 1), more.nodes[r.Below(more.nodes.size())]); what += "node added; "; } break;
      case 3: if (auto& b = coat.tips[0].behaviors; !b.empty()) { auto& ns = b[r.Below(b.size())].nodes; if (ns.size() > 1) std::swap(ns[r.Below(ns.size())], ns[r.Below(ns.size())]), what += "nodes swapped; "; } break;
      case 4: if (auto& l = coat.paint.texture_layers; !l.empty()) l[r.Below(l.size())].color_texture_uri = r.Chance(.5) ? Uri() : *Uri::Parse("/brush-family:x"), what += "texture uri; "; break;
      case 5: if (r.Chance(.5)) coat.tips.clear(); else coat.tips.push_back(BrushTip()); what += "tips; "; break;
      case 6: coat.tips[0].scale = {0, r.Chance(.5) ? 0.f : 1.f}; what += "scale; "; break;
    }
  }
  bool ok = coats.size() <= 10 && BrushFamily::MaxBrushCoats() == 10;
  for (auto& x : coats) {
    bool coat_ok = CoatOk(x);
    ok = ok && coat_ok;
    auto st = ink::brush_internal::ValidateBrushCoat(x);
    VH_REQUIRE(c, st.ok() == coat_ok, "coat-validity", what, "got ", st, " for ", x);
    // The parts on their own.
    for (auto& t : x.tips) {
      Fields f;
      ListTip(f, t);
      bool tip_ok = TipShapeOk(t);
      for (const Field& y : f) tip_ok = tip_ok && y.Valid();
      VH_REQUIRE(c, ink::brush_internal::ValidateBrushTip(t).ok() == tip_ok, "tip-validity", what, t);
      for (auto& b : t.behaviors) {
        bool b_ok = StackOk(b);
        for (auto& node : b.nodes) {
          Fields g;
          ListNode(g, node);
          bool node_ok = NodeShapeOk(node);
          for (const Field& y : g) node_ok = node_ok && y.Valid();
          VH_REQUIRE(c, ink::brush_internal::ValidateBrushBehaviorNode(node).ok() == node_ok, "node-validity", what, node);
          b_ok = b_ok && node_ok;
        }
        VH_REQUIRE(c, ink::brush_internal::ValidateBrushBehavior(b).ok() == b_ok, "behavior-validity", what, b);
      }
    }
    Fields f;
    ListPaint(f, x.paint);
    bool paint_ok = PaintShapeOk(x.paint);
    for (const Field& y : f) paint_ok = paint_ok && y.Valid();
    VH_REQUIRE(c, ink::brush_internal::ValidateBrushPaint(x.paint).ok() == paint_ok, "paint-validity", what, x.paint);
    auto ids = ink::brush_internal::GetRequiredAttributeIds(x);
    std::set<int> got;
    for (auto id : ids) got.insert((int)id);
    VH_REQUIRE(c, got == WantIds(x) && got.size() == ids.size(), "required-attributes", x);
  }
  // The family.
  std::string text = r.Of({"", "", "/brush-family:abc", "ink://x-y/brush-family:d:3", "/texture:abc", "nonsense", "/brush-family:"});
  bool uri_ok = text.empty() || text.find("/brush-family:abc") == 0 || text[0] == 'i';
  bool by_uri = r.Chance(.5) && (uri_ok || text == "/texture:abc");
  std::optional<Uri> uri;
  if (!text.empty()) if (auto p = Uri::Parse(text); p.ok()) uri = *p;
  BrushFamily::InputModel m;
  // A present but default-constructed uri names no brush family.
  if (r.Chance(.08)) uri = Uri(), text = "(default)", uri_ok = false, by_uri = true;
  bool v2 = r.Chance(.5);
  if (v2) m = BrushFamily::SpringModelV2(); else m = BrushFamily::SpringModelV1();
  bool single = coats.size() == 1 && coats[0].tips.size() == 1 && r.Chance(.5);
  auto fam = single ? (by_uri ? BrushFamily::Create(coats[0].tips[0], coats[0].paint, uri, m) : BrushFamily::Create(coats[0].tips[0], coats[0].paint, text, m))
                    : (by_uri ? BrushFamily::Create(coats, uri, m) : BrushFamily::Create(coats, text, m));
  VH_REQUIRE(c, fam.ok() == (ok && uri_ok), "family-validity", what, "uri '", text, "' coats ", coats.size(), " got ", fam.status());
  c.Count(fam.ok() ? "families_accepted" : "families_refused");
  c.Sig(fam.ok()); c.Sig(what); c.Sig(coats.size());
  if (!ok) c.NonTrivial();
  if (!fam.ok()) { VH_REQUIRE(c, fam.status().code() == absl::StatusCode::kInvalidArgument, "error-code", fam.status()); c.Sample("refused: ", what); return; }
  VH_REQUIRE(c, SameCoats(fam->GetCoats(), coats), "family-coats", what);
  VH_REQUIRE(c, fam->GetUri() == uri && (fam->GetInputModel().index() == 1) == v2, "family-uri-or-model", text);
  // Stairs are equal if and only if they have the same steps, placed alike.
  {
    auto stairs = [&] { return EasingFunction::Steps{r.Int(1, 3), static_cast<EasingFunction::StepPosition>(r.Below(4))}; };
    EasingFunction::Steps s1 = stairs(), s2 = stairs();
    bool same = s1.step_count == s2.step_count && s1.step_position == s2.step_position;
    VH_REQUIRE(c, (s1 == s2) == same && (EasingFunction{s1} == EasingFunction{s2}) == same && (EasingFunction{s1} != EasingFunction{s2}) == !same, "steps-equality", EasingFunction{s1}, " ", EasingFunction{s2});
  }
  // The brush.
  auto size_like = [&] { return r.Chance(.3) ? AnyFloat(r) : r.Chance(.3) ? r.Of({0.f, 1e-30f, 1.f, kMax}) : (float)r.LogReal(.01, 100); };
  float size = size_like(), eps = r.Chance(.2) ? size : r.Chance(.1) ? std::nextafterf(size, kInf) : size_like();
  auto good = [](float s, float e) { return std::isfinite(s) && std::isfinite(e) && s > 0 && e > 0 && s >= e; };
  Color color = Color::FromFloat(r.F(0, 1), r.F(0, 1), r.F(0, 1), r.F(0, 1), Color::Format::kGammaEncoded);
  auto brush = Brush::Create(*fam, color, size, eps);
  VH_REQUIRE(c, brush.ok() == good(size, eps), "brush-validity", size, " ", eps, " ", brush.status());
  Brush b;
  VH_REQUIRE(c, b.CoatCount() == 1 && b.GetCoats()[0].tips == std::vector<BrushTip>{BrushTip()} && good(b.GetSize(), b.GetEpsilon()), "default-brush");
  if (brush.ok()) b = *brush; else { size = b.GetSize(), eps = b.GetEpsilon(); color = b.GetColor(); coats.assign(b.GetCoats().begin(), b.GetCoats().end()); }
  Brush kept = b;
  float size0 = size, eps0 = eps;
  for (int k = r.Int(0, 8); k >= 0; --k) {
    VH_REQUIRE(c, b.GetSize() == size && b.GetEpsilon() == eps && b.GetColor() == color && SameCoats(b.GetCoats(), coats) && b.CoatCount() == coats.size(), "brush-read-back", b);
    switch (r.Below(4)) {
      case 0: { float s = size_like(); if (r.Chance(.2)) s = eps; auto st = b.SetSize(s); VH_REQUIRE(c, st.ok() == good(s, eps), "set-size", s, " with epsilon ", eps, ": ", st); if (st.ok()) size = s; break; }
      case 1: { float s = size_like(); if (r.Chance(.2)) s = size; auto st = b.SetEpsilon(s); VH_REQUIRE(c, st.ok() == good(size, s), "set-epsilon", s, " with size ", size, ": ", st); if (st.ok()) eps = s; break; }
      case 2: color = Color::FromFloat(r.F(0, 1), r.F(0, 1), r.F(0, 1), 1, Color::Format::kLinear); b.SetColor(color); break;
      case 3: { BrushFamily f2 = RandFamily(r, o); b.SetFamily(f2); coats.assign(f2.GetCoats().begin(), f2.GetCoats().end()); break; }
    }
  }
  VH_REQUIRE(c, kept.GetSize() == size0 && kept.GetEpsilon() == eps0, "brush-copy");
  c.Sample("accepted, ", coats.size(), " coats, size ", size, ", epsilon ", eps);
}
// ---------------------------------------------------------------- B02
// The exact curve, as an interval of values near x (dx is the resolution of x).
struct Curve {
  EasingFunction e;
  double x1 = 0, y1 = 0, x2 = 1, y2 = 1;
  bool bezier = false;
  explicit Curve(const EasingFunction& f) : e(f) {
    if (auto* b = std::get_if<EasingFunction::CubicBezier>(&f.parameters)) { bezier = true; x1 = b->x1, y1 = b->y1, x2 = b->x2, y2 = b->y2; }
    if (auto* p = std::get_if<EasingFunction::Predefined>(&f.parameters)) switch (*p) {
      case EasingFunction::Predefined::kEase: bezier = true, x1 = .25, y1 = .1, x2 = .25, y2 = 1; break;
      case EasingFunction::Predefined::kEaseIn: bezier = true, x1 = .42, y1 = 0, x2 = 1, y2 = 1; break;
      case EasingFunction::Predefined::kEaseOut: bezier = true, x1 = 0, y1 = 0, x2 = .58, y2 = 1; break;
      case EasingFunction::Predefined::kEaseInOut: bezier = true, x1 = .42, y1 = 0, x2 = .58, y2 = 1; break;
      case EasingFunction::Predefined::kStepStart: e = {EasingFunction::Steps{1, EasingFunction::StepPosition::kJumpStart}}; break;
      case EasingFunction::Predefined::kStepEnd: e = {EasingFunction::Steps{1, EasingFunction::StepPosition::kJumpEnd}}; break;
      default: e = {EasingFunction::Linear{}};
    }
  }
  static double B(double a, double b, double t) { return 3 * (1 - t) * (1 - t) * t * a + 3 * (1 - t) * t * t * b + t * t * t; }
  double ParamAt(double x) const { double lo = 0, hi = 1; for (int i = 0; i < 60; ++i) { double m = (lo + hi) / 2; (B(x1, x2, m) < x ? lo : hi) = m; } return lo; }
  double At(double x) const { return x <= 0 ? 0 : x >= 1 ? 1 : B(y1, y2, ParamAt(x)); }
  // How far values computed from points 1/78 apart in the parameter may be off
  // near x: little, unless the x of the curve changes its speed there.
  double Slack(double x) const {
    double t = ParamAt(std::clamp(x, 0., 1.)), worst = 0;
    for (double u : {t - .013, t, t + .013}) {
      double a = std::clamp(u - .007, 0., 1.), m = std::clamp(u, 0., 1.), b = std::clamp(u + .007, 0., 1.);
      double xa = B(x1, x2, a), xm = B(x1, x2, m), xb = B(x1, x2, b);
      double bend = xb > xa ? std::fabs((xm - xa) / (xb - xa) - (m - a) / (b - a)) : 1;
      worst = std::max(worst, bend * (std::fabs(B(y1, y2, b) - B(y1, y2, a)) + std::fabs(B(y1, y2, m) - B(y1, y2, a))));
    }
    return 8 * worst + 2e-3 * (1 + std::fabs(y1) + std::fabs(y2));
  }
  // What interpolating between points of the curve at most h apart may give at x.
  std::pair<double, double> Range(double x, double h) const {
    double lo = At(x), hi = lo, slack = Slack(x);
    for (int i = 0; i <= 40; ++i) {
      double a = std::max(x - h * i / 40, 0.), b = std::min(a + h, 1.);
      if (!(b > a) || b < x) continue;
      double ya = At(a), yb = At(b), y = ya + (yb - ya) * (x - a) / (b - a);
      lo = std::min(lo, y), hi = std::max(hi, y);
      slack = std::max({slack, Slack(a), Slack(b)});
    }
    return {lo - slack, hi + slack};
  }
};
// Piecewise linear, evaluated as documented: the last of several points with
// the same position counts, and the end segments are extended.
double LinearAt(const EasingFunction::Linear& l, double x, bool& ambiguous) {
  std::vector<std::pair<double, double>> p = {{0, 0}};
  for (auto q : l.points) p.push_back({q.x, q.y});
  p.push_back({1, 1});
  ambiguous = false;
  // Beyond a vertical end segment there is nothing to extend.
  if (x < 0) { if (p[1].first == 0) ambiguous = true; return p[0].second + (p[1].second - p[0].second) * (x - p[0].first) / (p[1].first - p[0].first); }
  size_t n = p.size();
  if (x >= 1) { if (x == 1) return 1; if (p[n - 2].first == 1) ambiguous = true; return p[n - 2].second + (p[n - 1].second - p[n - 2].second) * (x - p[n - 2].first) / (p[n - 1].first - p[n - 2].first); }
  size_t i = n - 1;
  while (i > 0 && p[i].first > x) --i;  // the last point at or before x
  return p[i].second + (p[i + 1].second - p[i].second) * (x - p[i].first) / (p[i + 1].first - p[i].first);
}
double StepsAt(const EasingFunction::Steps& s, double x) {
  if (x < 0) return 0;
  if (x >= 1) return 1;
  double k = std::floor(s.step_count * x), n = s.step_count;
  switch (s.step_position) {
    case EasingFunction::StepPosition::kJumpEnd: return k / n;
    case EasingFunction::StepPosition::kJumpStart: return (k + 1) / n;
    case EasingFunction::StepPosition::kJumpBoth: return (k + 1) / (n + 1);
    default: return k / (n - 1);
  }
}
VH_PROPERTY(B02) {
  Rng& r = c.rng;
  EasingFunction e = RandEasing(r);
  if (auto* b = std::get_if<EasingFunction::CubicBezier>(&e.parameters)) {
    auto edge = [&](float& x) { if (r.Chance(.3)) x = r.Of({0.f, 1.f, .5f, 1e-6f, std::nextafterf(1, 0), .999f, .001f}); };
    edge(b->x1), edge(b->x2), edge(b->y1), edge(b->y2);
  }
  if (auto* l = std::get_if<EasingFunction::Linear>(&e.parameters)) {
    if (r.Chance(.5)) {
      int n = r.Int(0, 9);
      l->points.clear();
      float x = 0;
      for (int i = 0; i < n; ++i) { if (r.Chance(.5)) x = r.Chance(.2) ? 1 : std::min(1.f, x + r.Int(0, 8) / 16.f); l->points.push_back({x, (float)r.Int(-4, 8) / 4.f}); }
    }
  }
  VH_REQUIRE(c, ink::brush_internal::ValidateEasingFunction(e).ok(), "generator", e);
  EasingImplementation f(e);
  EasingImplementation g = f;
  Curve k(e);
  c.NonTrivial();
  std::vector<float> xs = {0, 1, -0.f, std::nextafterf(0, -1), std::nextafterf(1, 0), std::nextafterf(1, 2)};
  for (int i = 0; i < 24; ++i) xs.push_back(r.Chance(.7) ? r.F(0, 1) : r.Chance(.7) ? r.F(-3, 4) : FiniteFloat(r));
  if (auto* l = std::get_if<EasingFunction::Linear>(&k.e.parameters)) for (auto p : l->points) for (float x : {p.x, std::nextafterf(p.x, -1), std::nextafterf(p.x, 2)}) xs.push_back(x);
  if (auto* s = std::get_if<EasingFunction::Steps>(&k.e.parameters)) for (int i = 0; i < 6; ++i) xs.push_back((float)r.Int(0, s->step_count) / s->step_count);
  for (float x : xs) {
    float y = f.GetY(x);
    VH_REQUIRE(c, SameF(y, g.GetY(x)), "copy");
    c.Count("values");
    if (k.bezier) {
      // Within the resolution of the approximation.
      double lo, hi;
      if (x <= 0 || x >= 1) lo = (x <= 0 ? 0 : 1) - 1e-3 * (1 + std::fabs(k.y1) + std::fabs(k.y2)), hi = (x <= 0 ? 0 : 1) + 1e-3 * (1 + std::fabs(k.y1) + std::fabs(k.y2));
      else std::tie(lo, hi) = k.Range(x, 1 / 13.);
      VH_REQUIRE(c, y >= lo && y <= hi, "bezier", e, " at ", x, " is ", y, " want between ", lo, " and ", hi);
    } else if (auto* l = std::get_if<EasingFunction::Linear>(&k.e.parameters)) {
      bool amb;
      double want = LinearAt(*l, x, amb);
      if (amb) { c.Count("unspecified"); continue; }
      if (std::fabs(want) > 1e30 || std::fabs(x) > 1e30) continue;
      // Conditioning: a steep segment amplifies the rounding of its ends.
      double tol = 1e-5 * (2 + std::fabs(want)), mag = 1;
      for (auto p : l->points) mag = std::max<double>(mag, std::fabs(p.y));
      tol += 2e-6 * mag * 4 + 4e-7 * std::fabs(x) * mag;
      bool near = std::fabs(y - want) <= tol;
      // Next to a steep segment, accept what a neighboring position gives.
      if (!near) { bool a2; double u = LinearAt(*l, x - 2e-7 * (1 + std::fabs(x)), a2), v = LinearAt(*l, x + 2e-7 * (1 + std::fabs(x)), a2); near = false; (void)u; (void)v;
        size_t q = 0; while (q < l->points.size() && l->points[q].x <= x) ++q;
        double xa = q ? l->points[q - 1].x : 0, xb = q < l->points.size() ? l->points[q].x : 1;
        if (xb - xa < 1e-3 || x < 0 || x > 1) { double span = std::max(1e-12, std::fabs(xb - xa)); near = std::fabs(y - want) <= tol + 1e-6 * mag * (1 + std::fabs(x)) / span; } }
      VH_REQUIRE(c, near, "linear", e, " at ", x, " is ", y, " want ", want);
    } else {
      auto& s = std::get<EasingFunction::Steps>(k.e.parameters);
      double a = StepsAt(s, x), b1 = x >= 0 && x < 1 ? StepsAt(s, std::max(0., x - 1.2e-7 * (x + 1e-9))) : a, b2 = x >= 0 && x < 1 ? StepsAt(s, std::min(x + 1.2e-7 * (x + 1e-9), std::nextafter(1., 0.))) : a;
      VH_REQUIRE(c, std::fabs(y - a) <= 1e-5 || std::fabs(y - b1) <= 1e-5 || std::fabs(y - b2) <= 1e-5, "steps", e, " at ", x, " is ", y, " want ", a);
    }
  }
  VH_REQUIRE(c, f.GetY(0) == f.GetY(-0.f) && std::fabs(f.GetY(1) - 1) < 1e-5, "ends", e, " gives ", f.GetY(0), " and ", f.GetY(1));
  if (!std::holds_alternative<EasingFunction::Steps>(k.e.parameters)) VH_REQUIRE(c, std::isnan(f.GetY(kNan)), "nan");
  // Between critical points it is monotonic.
  bool huge = false;
  if (auto* s = std::get_if<EasingFunction::Steps>(&k.e.parameters)) huge = s->step_count > 60;
  if (!huge) {
    absl::InlinedVector<float, EasingImplementation::kInlineCriticalPointCount> pts;
    f.AppendUnitIntervalCriticalPoints(pts);
    float last = 0;
    std::vector<float> cuts(pts.begin(), pts.end());
    cuts.push_back(1);
    for (float q : cuts) {
      VH_REQUIRE(c, q >= last && q <= 1, "critical-order", e, ": ", q, " after ", last);
      float pv = f.GetY(last + (q - last) * .5f / 17);
      int sign = 0;
      for (int i = 1; i <= 16; ++i) {
        float x = last + (q - last) * (i + .5f) / 17;
        float v = f.GetY(x);
        double d = (double)v - pv, noise = 1e-5 * (1 + std::fabs(v));
        if (std::fabs(d) > noise && q - last > 1e-5f) {
          int sg = d > 0 ? 1 : -1;
          VH_REQUIRE(c, sign == 0 || sign == sg, "critical-points", e, " is not monotonic between ", last, " and ", q);
          sign = sg;
        }
        pv = v;
      }
      last = q;
      c.Count("monotonic_pieces");
    }
  }
  for (float x : xs) c.Sig(f.GetY(x));
  c.Sample(e);
}
}  // namespace
}  // namespace vh
