// Random brushes and input batches.
#ifndef VERIF_STROKEGEN_H_
#define VERIF_STROKEGEN_H_
#include "gen.h"
#include "ink/brush/brush.h"
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/brush/brush_paint.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/easing_function.h"
#include "ink/color/color.h"
#include "ink/geometry/angle.h"
#include "ink/strokes/input/stroke_input.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "ink/types/duration.h"
#include "ink/types/physical_distance.h"
#include "ink/types/uri.h"
namespace vh {
using ink::Angle;
using ink::Brush;
using ink::BrushBehavior;
using ink::BrushCoat;
using ink::BrushFamily;
using ink::BrushPaint;
using ink::BrushTip;
using ink::Duration32;
using ink::EasingFunction;
using ink::StrokeInput;
using ink::StrokeInputBatch;
using Src = BrushBehavior::Source;
using Tgt = BrushBehavior::Target;
inline constexpr int kSources = (int)Src::kInputAccelerationLateralInCentimetersPerSecondSquared + 1;
inline constexpr int kTargets = (int)Tgt::kOpacityMultiplier + 1;
inline EasingFunction RandEasing(Rng& r) {
  switch (r.Below(4)) {
    case 0: return {(EasingFunction::Predefined)r.Below(7)};
    case 1: return {EasingFunction::CubicBezier{r.F(0, 1), r.F(-1, 2), r.F(0, 1), r.F(-1, 2)}};
    case 2: {
      EasingFunction::Linear l;
      int n = r.Int(0, 5);
      float x = 0;
      for (int i = 0; i < n; ++i) { if (r.Chance(.8)) x = r.F(x, 1); l.points.push_back({x, r.F(-1, 2)}); }
      return {l};
    }
    default: { auto p = (EasingFunction::StepPosition)r.Below(4); return {EasingFunction::Steps{r.Int(2, r.Chance(.3) ? 1000 : 6), p}}; }
  }
}
// A range two distinct values of which the source often straddles.
inline std::array<float, 2> SourceRange(Rng& r, Src s) {
  float hi = 1;
  switch (s) {
    case Src::kTiltInRadians: case Src::kTiltXInRadians: case Src::kTiltYInRadians: hi = 1.6f; break;
    case Src::kOrientationInRadians: case Src::kOrientationAboutZeroInRadians: case Src::kDirectionInRadians: case Src::kDirectionAboutZeroInRadians: hi = 6.3f; break;
    case Src::kSpeedInMultiplesOfBrushSizePerSecond: case Src::kVelocityXInMultiplesOfBrushSizePerSecond: case Src::kVelocityYInMultiplesOfBrushSizePerSecond: hi = 50; break;
    case Src::kDistanceTraveledInMultiplesOfBrushSize: case Src::kPredictedDistanceTraveledInMultiplesOfBrushSize: case Src::kDistanceRemainingInMultiplesOfBrushSize: hi = 8; break;
    case Src::kTimeOfInputInMillis: case Src::kPredictedTimeElapsedInMillis: case Src::kTimeSinceInputInMillis: hi = 300; break;
    case Src::kTimeOfInputInSeconds: case Src::kPredictedTimeElapsedInSeconds: case Src::kTimeSinceInputInSeconds: hi = 0.3f; break;
    case Src::kNormalizedPressure: case Src::kNormalizedDirectionX: case Src::kNormalizedDirectionY: hi = 1; break;
    default: hi = 200; break;
  }
  for (;;) {
    std::array<float, 2> a = {r.F(-hi / 2, hi), r.F(-hi / 2, hi)};
    if (r.Chance(.4)) a = {0, hi};
    if (a[0] != a[1]) return a;
  }
}
// Unusual numbers: any finite float, or (for positions, which nothing limits) a
// moderate one.
enum Hostile { kTame = 0, kModerate = 1, kAnyFinite = 2 };
inline float HostileFloat(Rng& r, Hostile h) { return h == kAnyFinite ? FiniteFloat(r) : ModerateFloat(r); }
inline std::array<float, 2> TargetRange(Rng& r, Tgt t, Hostile hostile) {
  double lo = 0, hi = 2;
  switch (t) {
    case Tgt::kWidthMultiplier: case Tgt::kHeightMultiplier: case Tgt::kSizeMultiplier: lo = 0, hi = 2; break;
    case Tgt::kSlantOffsetInRadians: case Tgt::kRotationOffsetInRadians: case Tgt::kHueOffsetInRadians: lo = -3, hi = 3; break;
    case Tgt::kPinchOffset: case Tgt::kCornerRoundingOffset: lo = -1, hi = 1; break;
    case Tgt::kPositionOffsetXInMultiplesOfBrushSize: case Tgt::kPositionOffsetYInMultiplesOfBrushSize:
    case Tgt::kPositionOffsetForwardInMultiplesOfBrushSize: case Tgt::kPositionOffsetLateralInMultiplesOfBrushSize: lo = -2, hi = 2; break;
    default: lo = -1, hi = 2.5; break;
  }
  for (;;) {
    std::array<float, 2> a = {r.F(lo, hi), r.F(lo, hi)};
    if (hostile && r.Chance(.3)) a = {HostileFloat(r, hostile), HostileFloat(r, hostile)};
    if (a[0] != a[1]) return a;
  }
}
inline void RandValueNodes(Rng& r, int depth, Hostile hostile, std::vector<BrushBehavior::Node>& out) {
  int k = depth <= 0 ? r.Int(0, 4) ? 0 : 1 : (int)r.Below(9);
  switch (k) {
    default: {
      Src s = (Src)r.Below(kSources);
      if (r.Chance(.15)) s = r.Of({Src::kTimeSinceInputInSeconds, Src::kTimeSinceInputInMillis, Src::kDistanceRemainingInMultiplesOfBrushSize});
      auto o = (BrushBehavior::OutOfRange)r.Below(3);
      if (s == Src::kTimeSinceInputInSeconds || s == Src::kTimeSinceInputInMillis) o = BrushBehavior::OutOfRange::kClamp;
      auto range = SourceRange(r, s);
      if (hostile && r.Chance(.3)) do range = {HostileFloat(r, hostile), HostileFloat(r, hostile)}; while (range[0] == range[1]);
      out.push_back(BrushBehavior::SourceNode{s, o, range});
      break;
    }
    case 1: out.push_back(BrushBehavior::ConstantNode{hostile && r.Chance(.4) ? HostileFloat(r, hostile) : r.F(-1, 2)}); break;
    case 2: RandValueNodes(r, depth - 1, hostile, out); out.push_back(BrushBehavior::FallbackFilterNode{(BrushBehavior::OptionalInputProperty)r.Below(4)}); break;
    case 3: {
      RandValueNodes(r, depth - 1, hostile, out);
      BrushBehavior::EnabledToolTypes e{r.Chance(.5), r.Chance(.5), r.Chance(.5), r.Chance(.5)};
      if (!e.HasAnyTypes()) e.unknown = true;
      out.push_back(BrushBehavior::ToolTypeFilterNode{e});
      break;
    }
    case 4: {
      RandValueNodes(r, depth - 1, hostile, out);
      auto d = (BrushBehavior::DampingSource)r.Below(3);
      float gap = r.Chance(.2) ? 0 : (float)r.LogReal(.005, 2);
      if (hostile && r.Chance(.3)) gap = std::fabs(HostileFloat(r, hostile));
      out.push_back(BrushBehavior::DampingNode{d, gap});
      break;
    }
    case 5: RandValueNodes(r, depth - 1, hostile, out); out.push_back(BrushBehavior::ResponseNode{RandEasing(r)}); break;
    case 6: RandValueNodes(r, depth - 1, hostile, out); RandValueNodes(r, depth - 1, hostile, out); out.push_back(BrushBehavior::BinaryOpNode{(BrushBehavior::BinaryOp)r.Below(2)}); break;
    case 7: for (int i = 0; i < 3; ++i) RandValueNodes(r, depth - 1, hostile, out); out.push_back(BrushBehavior::InterpolationNode{(BrushBehavior::Interpolation)r.Below(2)}); break;
  }
}
inline BrushBehavior RandBehavior(Rng& r, bool any_hostile) {
  BrushBehavior b;
  int n = r.Chance(.2) ? 2 : 1;
  for (int i = 0; i < n; ++i) {
    Tgt t = (Tgt)r.Below(kTargets);
    bool position = t == Tgt::kPositionOffsetXInMultiplesOfBrushSize || t == Tgt::kPositionOffsetYInMultiplesOfBrushSize || t == Tgt::kPositionOffsetForwardInMultiplesOfBrushSize || t == Tgt::kPositionOffsetLateralInMultiplesOfBrushSize;
    Hostile hostile = !any_hostile ? kTame : position ? kModerate : kAnyFinite;
    RandValueNodes(r, r.Int(0, 3), hostile, b.nodes);
    b.nodes.push_back(BrushBehavior::TargetNode{t, TargetRange(r, t, hostile)});
  }
  return b;
}
struct BrushOpts { bool behaviors = true, particles = true, hostile = false, textures = true; int max_coats = 2; };
inline BrushTip RandTip(Rng& r, const BrushOpts& o) {
  BrushTip t;
  switch (r.Below(4)) {
    case 0: break;
    case 1: t.scale = {r.F(.1, 1.5), r.F(.1, 1.5)}; t.corner_rounding = r.Chance(.5) ? 1.f : 0.f; break;
    default:
      t.scale = {r.F(0.05, 2), r.F(0.05, 2)};
      if (r.Chance(.15)) (r.Chance(.5) ? t.scale.x : t.scale.y) = 0;
      t.corner_rounding = r.Chance(.3) ? 0 : r.F(0, 1);
      if (r.Chance(.5)) t.slant = Angle::Radians(r.F(-ink::kQuarterTurn.ValueInRadians(), ink::kQuarterTurn.ValueInRadians()));
      if (r.Chance(.5)) t.pinch = r.F(0, 1);
      if (r.Chance(.5)) t.rotation = Angle::Radians(r.F(-7, 7));
      if (r.Chance(.1)) t.slant = r.Chance(.5) ? ink::kQuarterTurn : -ink::kQuarterTurn;
  }
  if (r.Chance(.3)) t.opacity_multiplier = r.F(0, 2);
  if (o.particles && r.Chance(.25)) {
    if (r.Chance(.6)) t.particle_gap_distance_scale = r.F(.4, 3);
    if (r.Chance(.5)) t.particle_gap_duration = Duration32::Seconds(r.F(.03, .2));
  }
  if (o.behaviors && r.Chance(.75)) { int n = r.Int(1, 4); for (int i = 0; i < n; ++i) t.behaviors.push_back(RandBehavior(r, o.hostile)); }
  return t;
}
inline BrushPaint RandPaint(Rng& r) {
  BrushPaint p;
  int n = r.Chance(.5) ? 0 : r.Int(1, 2);
  auto mapping = (BrushPaint::TextureMapping)r.Below(2);
  for (int i = 0; i < n; ++i) {
    BrushPaint::TextureLayer l{.color_texture_uri = *ink::Uri::Parse("/texture:x"), .mapping = mapping};
    l.size = {r.F(.1, 5), r.F(.1, 5)};
    l.offset = {r.F(0, 1), r.F(0, 1)};
    l.opacity = r.F(0, 1);
    p.texture_layers.push_back(l);
  }
  return p;
}
inline BrushFamily RandFamily(Rng& r, const BrushOpts& o) {
  std::vector<BrushCoat> coats;
  int n = r.Chance(.75) ? 1 : r.Int(0, o.max_coats);
  for (int i = 0; i < n; ++i) coats.push_back({{RandTip(r, o)}, o.textures ? RandPaint(r) : BrushPaint()});
  BrushFamily::InputModel m;
  if (r.Chance(.5)) m = BrushFamily::SpringModelV1(); else m = BrushFamily::SpringModelV2();
  auto f = BrushFamily::Create(coats, "", m);
  if (!f.ok()) FailArgs("generator", {Arg("brush family refused: "), Arg(f.status())});
  return *f;
}
inline Brush RandBrush(Rng& r, const BrushOpts& o, float size = 0) {
  if (size == 0) size = (float)r.LogReal(.5, 60);
  float eps = (float)(size * r.LogReal(.002, .3));
  auto b = Brush::Create(RandFamily(r, o), ink::Color::Black(), size, eps);
  if (!b.ok()) FailArgs("generator", {Arg("brush refused: "), Arg(b.status())});
  return *b;
}
inline bool HasParticles(const Brush& b) {
  for (const BrushCoat& c : b.GetCoats()) for (const BrushTip& t : c.tips) if (t.particle_gap_distance_scale != 0 || t.particle_gap_duration != Duration32::Zero()) return true;
  return false;
}
// What all inputs of a stroke have in common, and where the pen is.
struct Pen {
  StrokeInput::ToolType tool;
  ink::PhysicalDistance unit;
  bool pressure, tilt, orientation;
  double x, y, t, dir, step;
  Pen(Rng& r, const Brush& b) : Pen(r, b.GetSize()) {
    if (HasParticles(b)) step = std::min<double>(step, b.GetSize() * .5);  // building is quadratic in the particles
  }
  Pen(Rng& r, double brush_size) {
    tool = (StrokeInput::ToolType)r.Below(4);
    unit = r.Chance(.5) ? StrokeInput::kNoStrokeUnitLength : ink::PhysicalDistance::Centimeters(r.F(.005, .2));
    pressure = r.Chance(.5), tilt = r.Chance(.5), orientation = r.Chance(.5);
    double far = r.Chance(.15) ? 1e4 : r.Chance(.05) ? 1e6 : 100;
    x = r.Real(-far, far), y = r.Real(-far, far), t = r.Chance(.7) ? 0 : r.Real(0, 2), dir = r.Real(0, 6.3);
    step = brush_size * r.LogReal(.05, 5);
  }
  StrokeInput Next(Rng& r) {
    StrokeInput i{.tool_type = tool, .position = {(float)x, (float)y}, .elapsed_time = Duration32::Seconds((float)t), .stroke_unit_length = unit};
    if (pressure) i.pressure = r.Chance(.1) ? r.Of({0.f, 1.f}) : r.F(0, 1);
    if (tilt) i.tilt = Angle::Radians(r.Chance(.1) ? 0.f : r.F(0, 1.57));
    if (orientation) i.orientation = Angle::Radians(r.Chance(.1) ? 0.f : r.F(0, 6.28));
    // Move on.
    float px = (float)x, py = (float)y, pt = (float)t;
    for (;;) {
      switch (r.Below(12)) {
        case 0: dir += r.Real(-3.2, 3.2); break;       // sharp turn
        case 1: dir += 3.14159265; break;              // reversal
        default: dir += r.Real(-.5, .5);
      }
      double d = r.Chance(.12) ? 0 : r.Chance(.05) ? step * 20 : step * r.U();
      x += d * std::cos(dir), y += d * std::sin(dir);
      t += r.Chance(.12) ? 0 : r.Chance(.04) ? r.Real(.1, 1.5) : r.Real(.001, .03);
      if ((float)x != px || (float)y != py || (float)t != pt) break;
    }
    return i;
  }
};
inline std::vector<StrokeInput> Take(Pen& p, Rng& r, int n) { std::vector<StrokeInput> v; for (int i = 0; i < n; ++i) v.push_back(p.Next(r)); return v; }
inline StrokeInputBatch Batch(const std::vector<StrokeInput>& v) {
  auto b = StrokeInputBatch::Create(v);
  if (!b.ok()) FailArgs("generator", {Arg("batch refused: "), Arg(b.status())});
  return *b;
}
}  // namespace vh
#endif
