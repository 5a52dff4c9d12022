// Modeling: S05 modeled inputs, S06 tip states against an independent
// evaluation of the behavior graphs in intervals.
#include <algorithm>
#include <optional>
#include "geo.h"
#include "ink/strokes/internal/brush_tip_modeler.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/easing_implementation.h"
#include "ink/strokes/internal/stroke_input_modeler.h"
#include "strokegen.h"
#include "vh_main.h"
namespace vh {
namespace {
using ink::Point;
using ink::Vec;
using ink::strokes_internal::BrushTipModeler;
using ink::strokes_internal::BrushTipState;
using ink::strokes_internal::EasingImplementation;
using ink::strokes_internal::ModeledStrokeInput;
using ink::strokes_internal::StrokeInputModeler;
using State = StrokeInputModeler::State;
constexpr double kTwoPi = 2 * M_PI, kHuge = 1e30;

// ---------------------------------------------------------------- intervals
// A value known up to rounding, or null, or too uncertain to judge.
struct Iv {
  enum Kind { kValue, kNull, kUnknown } k = kNull;
  double lo = 0, hi = 0;
  static Iv Null() { return {}; }
  static Iv Unknown() { return {kUnknown, 0, 0}; }
  static Iv Of(double a, double b) {
    if (!(std::fabs(a) < kHuge && std::fabs(b) < kHuge)) return Unknown();
    return {kValue, std::min(a, b), std::max(a, b)};
  }
  static Iv Exact(double a) { return Of(a, a); }
  bool Value() const { return k == kValue; }
  double Mag() const { return std::max(std::fabs(lo), std::fabs(hi)); }
};
Iv Widen(Iv v, double e) { return v.Value() ? Iv::Of(v.lo - e, v.hi + e) : v; }
Iv Hull(Iv a, Iv b) {
  if (a.k != b.k) return Iv::Unknown();
  return a.Value() ? Iv::Of(std::min(a.lo, b.lo), std::max(a.hi, b.hi)) : a;
}
// The hull of f over all combinations of ends, for f monotonic in each argument.
template <typename F> Iv Corners3(Iv a, Iv b, Iv c, F f) {
  if (!a.Value() || !b.Value() || !c.Value()) return Iv::Unknown();
  double lo = 1e300, hi = -1e300, mag = 0;
  for (int i = 0; i < 8; ++i) {
    double v = f(i & 1 ? a.hi : a.lo, i & 2 ? b.hi : b.lo, i & 4 ? c.hi : c.lo);
    if (!(std::fabs(v) < kHuge)) return Iv::Unknown();
    lo = std::min(lo, v), hi = std::max(hi, v), mag = std::max(mag, std::fabs(v));
  }
  return Iv::Of(lo - 3e-7 * mag, hi + 3e-7 * mag);
}
struct Null3 { bool any_null, any_unknown; };
Null3 Nulls(std::initializer_list<Iv> l) { Null3 n{false, false}; for (const Iv& v : l) n.any_null |= v.k == Iv::kNull, n.any_unknown |= v.k == Iv::kUnknown; return n; }
Iv Lerp3(Iv a, Iv b, Iv t) {
  if (a.Mag() >= kHuge || b.Mag() >= kHuge || t.Mag() >= kHuge) return Iv::Unknown();
  Iv r = Corners3(a, b, t, [](double x, double y, double u) { return x + (y - x) * u; });
  return Widen(r, 2e-7 * (a.Mag() + (a.Mag() + b.Mag()) * (1 + t.Mag())));
}

// ---------------------------------------------------------------- reference
// A modeled input, with the uncertainty of what interpolation gives.
struct In {
  ModeledStrokeInput a, b;  // equal unless interpolated
  double distance_err = 0, time_err = 0, velocity_err = 0, acceleration_err = 0;
  bool Interpolated() const { return distance_err != 0 || time_err != 0; }
};
struct Metrics { double distance, time, distance_err = 0, time_err = 0; };
struct Want {  // a wanted tip state
  bool gap = false;
  Iv x, y, width, height, rounding, rotation, slant, pinch, hue, saturation, luminosity, opacity;
};

struct Reference {
  const BrushTip& tip;
  double size;
  const State& st;
  absl::Span<const ModeledStrokeInput> in;
  std::vector<const BrushBehavior::Node*> nodes;
  std::vector<Iv> damped, mods;
  std::vector<Tgt> targets;
  std::vector<EasingImplementation> easings;
  std::vector<Want> out;
  bool ambiguous = false;  // the number of particles depends on rounding
  int unknowns = 0;
  Reference(const BrushTip& t, float s, const State& state, absl::Span<const ModeledStrokeInput> inputs) : tip(t), size(s), st(state), in(inputs) {
    for (const auto& b : t.behaviors) for (const auto& n : b.nodes) {
      nodes.push_back(&n);
      if (std::get_if<BrushBehavior::DampingNode>(&n)) damped.push_back(Iv::Null());
      if (auto* r = std::get_if<BrushBehavior::ResponseNode>(&n)) easings.emplace_back(r->response_curve);
      if (auto* g = std::get_if<BrushBehavior::TargetNode>(&n)) {
        targets.push_back(g->target);
        bool mult = g->target == Tgt::kWidthMultiplier || g->target == Tgt::kHeightMultiplier || g->target == Tgt::kSizeMultiplier || g->target == Tgt::kSaturationMultiplier || g->target == Tgt::kOpacityMultiplier;
        mods.push_back(Iv::Exact(mult ? 1 : 0));
      }
    }
  }
  // The source at one position: a value with an error, or null.
  Iv SourceAt(Src s, const ModeledStrokeInput& i, const std::optional<double>& dir, const In& in) const {
    double derr = in.distance_err, terr = in.time_err, verr = in.velocity_err, aerr = in.acceleration_err;
    bool no_tilt = i.tilt == StrokeInput::kNoTilt, no_or = i.orientation == StrokeInput::kNoOrientation;
    double tilt = i.tilt.ValueInRadians(), ori = i.orientation.ValueInRadians(), dist = i.traveled_distance, t = i.elapsed_time.ToSeconds();
    Vec v = i.velocity, a = i.acceleration;
    double speed = std::hypot((double)v.x, (double)v.y), acc = std::hypot((double)a.x, (double)a.y);
    double fwd = speed > 0 ? ((double)a.x * v.x + (double)a.y * v.y) / speed : 0, lat = speed > 0 ? ((double)a.y * v.x - (double)a.x * v.y) / speed : 0;
    double acc_err = 1e-6 * acc + aerr + (speed > 0 ? acc * std::min(2., verr / speed) : 0);
    double unit = st.stroke_unit_length.has_value() ? (double)st.stroke_unit_length->ToCentimeters() : -1;
    auto near = [](double x, double e) { return Iv::Of(x - e - 1e-6 * std::fabs(x), x + e + 1e-6 * std::fabs(x)); };
    auto cm = [&](double x, double e) { return st.stroke_unit_length.has_value() ? near(x * unit, e * unit) : Iv::Null(); };
    double pred_d = std::max(0., dist - st.total_real_distance), pred_t = std::max(0., t - (double)st.total_real_elapsed_time.ToSeconds());
    double since = (double)st.complete_elapsed_time.ToSeconds() - t, te = terr + 1e-7 * (std::fabs(t) + st.complete_elapsed_time.ToSeconds());
    double de = derr + 1e-7 * (dist + st.complete_traveled_distance);
    auto clamped = [&](Iv x) { return x.Value() ? Iv::Of(std::max(0., x.lo), std::max(0., x.hi)) : x; };
    switch (s) {
      case Src::kNormalizedPressure: return i.pressure == StrokeInput::kNoPressure ? Iv::Null() : near(i.pressure, 0);
      case Src::kTiltInRadians: return no_tilt ? Iv::Null() : near(tilt, 0);
      case Src::kTiltXInRadians: case Src::kTiltYInRadians: {
        if (no_tilt || no_or) return Iv::Null();
        if (i.tilt == Angle()) return Iv::Exact(0);
        if (i.tilt == ink::kQuarterTurn && derr == 0) return Iv::Null();
        if (std::fabs(tilt - M_PI / 2) < 1e-3) return Iv::Unknown();
        double c = s == Src::kTiltXInRadians ? std::cos(ori) : std::sin(ori);
        return near(std::atan(c * std::tan(tilt)), 1e-6 + 1e-6 * (1 + std::fabs(std::tan(tilt))));
      }
      case Src::kOrientationInRadians:
        if (no_or || i.tilt == Angle()) return Iv::Null();
        return derr > 0 && (ori < 1e-5 || ori > kTwoPi - 1e-5) ? Iv::Of(0, kTwoPi) : near(ori, derr > 0 ? 2e-6 : 0);
      case Src::kOrientationAboutZeroInRadians: {
        if (no_or || i.tilt == Angle()) return Iv::Null();
        double z = std::remainder(ori, kTwoPi);
        return std::fabs(z) > M_PI - 2e-6 ? Iv::Of(-M_PI - 1e-6, M_PI + 1e-6) : near(z, 2e-6);
      }
      case Src::kSpeedInMultiplesOfBrushSizePerSecond: return near(speed / size, verr / size);
      case Src::kVelocityXInMultiplesOfBrushSizePerSecond: return near(v.x / size, verr / size);
      case Src::kVelocityYInMultiplesOfBrushSizePerSecond: return near(v.y / size, verr / size);
      case Src::kDirectionInRadians: case Src::kDirectionAboutZeroInRadians: {
        if (!dir) return Iv::Null();
        double z = *dir;
        if (s == Src::kDirectionInRadians) { if (std::fabs(z) < 2e-6) return Iv::Of(0, kTwoPi); return near(z < 0 ? z + kTwoPi : z, 2e-6); }
        return std::fabs(z) > M_PI - 2e-6 ? Iv::Of(-M_PI - 1e-6, M_PI + 1e-6) : near(z, 1e-6);
      }
      case Src::kNormalizedDirectionX: return dir ? near(std::cos(*dir), 1e-6) : Iv::Null();
      case Src::kNormalizedDirectionY: return dir ? near(std::sin(*dir), 1e-6) : Iv::Null();
      case Src::kDistanceTraveledInMultiplesOfBrushSize: return near(dist / size, derr / size);
      case Src::kTimeOfInputInSeconds: return near(t, terr);
      case Src::kTimeOfInputInMillis: return near(t * 1000, terr * 1000);
      case Src::kPredictedDistanceTraveledInMultiplesOfBrushSize: return clamped(near(pred_d / size, pred_d > 0 || derr > 0 ? de / size : 0));
      case Src::kPredictedTimeElapsedInSeconds: return clamped(near(pred_t, pred_t > 0 || terr > 0 ? te : 0));
      case Src::kPredictedTimeElapsedInMillis: return clamped(near(pred_t * 1000, pred_t > 0 || terr > 0 ? te * 1000 : 0));
      case Src::kDistanceRemainingInMultiplesOfBrushSize: return near((st.complete_traveled_distance - dist) / size, de / size);
      case Src::kTimeSinceInputInSeconds: return near(since, te);
      case Src::kTimeSinceInputInMillis: return near(since * 1000, te * 1000);
      case Src::kAccelerationInMultiplesOfBrushSizePerSecondSquared: return near(acc / size, aerr / size);
      case Src::kAccelerationXInMultiplesOfBrushSizePerSecondSquared: return near(a.x / size, aerr / size);
      case Src::kAccelerationYInMultiplesOfBrushSizePerSecondSquared: return near(a.y / size, aerr / size);
      // At rest, no direction is specified.
      case Src::kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared: if (speed == 0) return Iv::Unknown(); return near(fwd / size, acc_err / size);
      case Src::kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared: if (speed == 0) return Iv::Unknown(); return near(lat / size, acc_err / size);
      case Src::kInputSpeedInCentimetersPerSecond: return cm(speed, verr);
      case Src::kInputVelocityXInCentimetersPerSecond: return cm(v.x, verr);
      case Src::kInputVelocityYInCentimetersPerSecond: return cm(v.y, verr);
      case Src::kInputDistanceTraveledInCentimeters: return cm(dist, derr);
      case Src::kPredictedInputDistanceTraveledInCentimeters: return clamped(cm(pred_d, pred_d > 0 || derr > 0 ? de : 0));
      case Src::kInputAccelerationInCentimetersPerSecondSquared: return cm(acc, aerr);
      case Src::kInputAccelerationXInCentimetersPerSecondSquared: return cm(a.x, aerr);
      case Src::kInputAccelerationYInCentimetersPerSecondSquared: return cm(a.y, aerr);
      case Src::kInputAccelerationForwardInCentimetersPerSecondSquared: if (speed == 0 && unit > 0) return Iv::Unknown(); return cm(fwd, acc_err);
      case Src::kInputAccelerationLateralInCentimetersPerSecondSquared: if (speed == 0 && unit > 0) return Iv::Unknown(); return cm(lat, acc_err);
    }
    return Iv::Unknown();
  }
  Iv Source(const BrushBehavior::SourceNode& n, const In& i, const std::optional<double>& dir) const {
    Iv v = SourceAt(n.source, i.a, dir, i);
    if (i.Interpolated()) {
      v = Hull(v, SourceAt(n.source, i.b, dir, i));
      bool tilt = n.source >= Src::kTiltInRadians && n.source <= Src::kOrientationAboutZeroInRadians;
      if (tilt && n.source != Src::kTiltInRadians && std::fabs((double)i.a.tilt.ValueInRadians()) < 1e-5 && i.a.tilt != Angle()) return Iv::Unknown();
    }
    if (!v.Value()) return v;
    double a = n.source_value_range[0], b = n.source_value_range[1], d = b - a;
    if (!(std::fabs(a) < kHuge && std::fabs(b) < kHuge && std::fabs(d) > 1e-30)) return Iv::Unknown();
    // A bound on what remains that is lost in rounding does not decide what is final.
    if (n.source == Src::kDistanceRemainingInMultiplesOfBrushSize && std::fabs(d) * size < 1e-4 * st.complete_traveled_distance) return Iv::Unknown();
    if ((n.source == Src::kTimeSinceInputInSeconds || n.source == Src::kTimeSinceInputInMillis) && std::fabs(d) < 1e-4 * st.complete_elapsed_time.ToSeconds()) return Iv::Unknown();
    double e = 2e-7 * (v.Mag() + std::fabs(a)) / std::fabs(d);
    Iv x = Iv::Of((v.lo - a) / d, (v.hi - a) / d);
    if (!x.Value()) return x;
    x = Widen(x, e + 3e-7 * x.Mag() + 1e-40);
    if (!x.Value()) return x;
    switch (n.source_out_of_range_behavior) {
      case BrushBehavior::OutOfRange::kClamp: return Iv::Of(std::clamp(x.lo, 0., 1.), std::clamp(x.hi, 0., 1.));
      case BrushBehavior::OutOfRange::kRepeat: { double f = std::floor(x.lo); return std::floor(x.hi) != f ? Iv::Of(0, 1) : Widen(Iv::Of(x.lo - f, x.hi - f), 1e-7); }
      default: {
        if (x.hi - x.lo >= 1) return Iv::Of(0, 1);
        auto tri = [](double u) { return std::fabs(u - 2 * std::nearbyint(u / 2)); };
        double lo = std::min(tri(x.lo), tri(x.hi)), hi = std::max(tri(x.lo), tri(x.hi));
        double m = std::ceil(x.lo);
        if (m <= x.hi) { if (std::fmod(std::fabs(m), 2) == 0) lo = 0; else hi = 1; }
        return Iv::Of(lo, hi);
      }
    }
  }
  Iv Ease(const EasingImplementation& e, Iv v) const {
    if (!v.Value()) return v;
    if (v.hi - v.lo > 1e-3) return Iv::Unknown();  // the curve is not monotonic
    double lo = 1e300, hi = -1e300;
    for (int i = 0; i <= 8; ++i) {
      double y = e.GetY((float)(v.lo + (v.hi - v.lo) * i / 8));
      if (!(std::fabs(y) < kHuge)) return Iv::Unknown();
      lo = std::min(lo, y), hi = std::max(hi, y);
    }
    // Rounding of the argument itself.
    if (v.lo != v.hi || std::fabs(v.lo) > 0) for (double x : {v.lo - 1e-7 * std::fabs(v.lo), v.hi + 1e-7 * std::fabs(v.hi)}) { double y = e.GetY((float)x); if (!(std::fabs(y) < kHuge)) return Iv::Unknown(); lo = std::min(lo, y), hi = std::max(hi, y); }
    for (double x : {0., 1.}) if (v.lo <= x && x <= v.hi) lo = std::min<double>(lo, e.GetY((float)x)), hi = std::max<double>(hi, e.GetY((float)x));
    // Around a jump, the samples may miss what is between.
    if (v.lo != v.hi && hi - lo > .01 + 20 * (v.hi - v.lo)) return Iv::Unknown();
    return Widen(Iv::Of(lo, hi), 1e-6 * (std::fabs(lo) + std::fabs(hi)));
  }
  void Damp(const BrushBehavior::DampingNode& n, Iv& state, Iv v, const In& i, const std::optional<Metrics>& prev) const {
    if (v.k == Iv::kNull) return;
    if (v.k == Iv::kUnknown || state.k == Iv::kUnknown) { state = n.damping_gap == 0 && v.Value() ? v : Iv::Unknown(); return; }
    if (state.k == Iv::kNull || n.damping_gap == 0) { state = v; return; }
    if (!prev) { state = Iv::Unknown(); return; }
    double d = i.a.traveled_distance - prev->distance, err = i.distance_err + prev->distance_err + 1e-7 * std::fabs(d), gap = n.damping_gap;
    switch (n.damping_source) {
      case BrushBehavior::DampingSource::kDistanceInCentimeters:
        if (!st.stroke_unit_length) { state = v; return; }
        d *= st.stroke_unit_length->ToCentimeters(), err *= st.stroke_unit_length->ToCentimeters();
        break;
      case BrushBehavior::DampingSource::kDistanceInMultiplesOfBrushSize: gap *= size; break;
      default: d = (double)i.a.elapsed_time.ToSeconds() - prev->time, err = i.time_err + prev->time_err + 1e-7 * std::fabs(d);
    }
    if (gap < 1e-30) { state = Iv::Unknown(); return; }
    if (d + err <= 0) return;
    double f0 = std::exp(-std::max(0., d - err) / gap), f1 = std::exp(-(d + err) / gap);
    state = Lerp3(v, state, Widen(Iv::Of(f0, f1), 1e-6 * f0 * (1 + d / gap)));
  }
  void Add(const In& i, const std::optional<double>& dir, const std::optional<Metrics>& prev) {
    std::vector<Iv> stack;
    size_t nd = 0, ne = 0, nt = 0;
    auto pop = [&] { Iv v = stack.back(); stack.pop_back(); return v; };
    for (const BrushBehavior::Node* node : nodes) {
      if (auto* s = std::get_if<BrushBehavior::SourceNode>(node)) stack.push_back(Source(*s, i, dir));
      else if (auto* k = std::get_if<BrushBehavior::ConstantNode>(node)) stack.push_back({Iv::kValue, k->value, k->value});  // maybe huge
      else if (auto* f = std::get_if<BrushBehavior::FallbackFilterNode>(node)) {
        bool p = i.a.pressure != StrokeInput::kNoPressure, t = i.a.tilt != StrokeInput::kNoTilt, o = i.a.orientation != StrokeInput::kNoOrientation;
        using P = BrushBehavior::OptionalInputProperty;
        bool present = f->is_fallback_for == P::kPressure ? p : f->is_fallback_for == P::kTilt ? t : f->is_fallback_for == P::kOrientation ? o : t && o;
        if (present) stack.back() = Iv::Null();
      } else if (auto* f = std::get_if<BrushBehavior::ToolTypeFilterNode>(node)) {
        const auto& e = f->enabled_tool_types;
        bool on = st.tool_type == StrokeInput::ToolType::kMouse ? e.mouse : st.tool_type == StrokeInput::ToolType::kTouch ? e.touch : st.tool_type == StrokeInput::ToolType::kStylus ? e.stylus : e.unknown;
        if (!on) stack.back() = Iv::Null();
      } else if (auto* d = std::get_if<BrushBehavior::DampingNode>(node)) {
        Damp(*d, damped[nd], stack.back(), i, prev);
        stack.back() = damped[nd++];
      } else if (std::get_if<BrushBehavior::ResponseNode>(node)) {
        stack.back() = Ease(easings[ne++], stack.back());
      } else if (auto* b = std::get_if<BrushBehavior::BinaryOpNode>(node)) {
        Iv y = pop(), x = pop();
        Null3 n = Nulls({x, y});
        if (n.any_null) stack.push_back(Iv::Null());
        else if (n.any_unknown) stack.push_back(Iv::Unknown());
        // What overflows is null.
        else if (x.lo == x.hi && y.lo == y.hi && std::fabs(b->operation == BrushBehavior::BinaryOp::kSum ? x.lo + y.lo : x.lo * y.lo) > 3.5e38) stack.push_back(Iv::Null());
        else stack.push_back(b->operation == BrushBehavior::BinaryOp::kSum ? Widen(Iv::Of(x.lo + y.lo, x.hi + y.hi), 2e-7 * (x.Mag() + y.Mag()))
                                                                          : Corners3(x, y, Iv::Exact(0), [](double p, double q, double) { return p * q; }));
      } else if (auto* p = std::get_if<BrushBehavior::InterpolationNode>(node)) {
        Iv e = pop(), s = pop(), t = pop();
        Null3 n = Nulls({e, s, t});
        if (n.any_null) stack.push_back(Iv::Null());
        else if (n.any_unknown || e.Mag() >= kHuge || s.Mag() >= kHuge || t.Mag() >= kHuge) stack.push_back(Iv::Unknown());
        else if (p->interpolation == BrushBehavior::Interpolation::kLerp) stack.push_back(Lerp3(s, e, t));
        else if (s.lo == s.hi && e.lo == e.hi && s.lo == e.lo) stack.push_back(Iv::Null());
        else if (s.lo <= e.hi + 1e-6 * e.Mag() && e.lo <= s.hi + 1e-6 * s.Mag()) stack.push_back(Iv::Unknown());
        else {
          double len = std::min(std::fabs(e.lo - s.hi), std::fabs(s.lo - e.hi));
          Iv r = Corners3(s, e, t, [](double a, double c, double v) { return (v - a) / (c - a); });
          stack.push_back(Widen(r, 3e-7 * (s.Mag() + e.Mag() + t.Mag()) / len * (1 + r.Mag())));
        }
      } else if (auto* g = std::get_if<BrushBehavior::TargetNode>(node)) {
        Iv v = pop();
        if (v.k == Iv::kUnknown) mods[nt] = Iv::Unknown();
        if (v.Value()) mods[nt] = Lerp3(Iv::Exact(g->target_modifier_range[0]), Iv::Exact(g->target_modifier_range[1]), v);
        ++nt;
      }
    }
    // Combine.
    Want w;
    Iv px = Hull(Iv::Exact(i.a.position.x), Iv::Exact(i.b.position.x)), py = Hull(Iv::Exact(i.a.position.y), Iv::Exact(i.b.position.y));
    Iv width = Iv::Exact(1), height = width, slant = Iv::Exact(0), pinch = slant, rot = slant, round = slant, hue = slant, sat = width, lum = slant, op = width;
    auto mul = [](Iv& a, Iv b) { a = a.Value() && b.Value() ? Corners3(a, b, Iv::Exact(0), [](double p, double q, double) { return p * q; }) : Iv::Unknown(); };
    auto add = [](Iv& a, Iv b) { a = a.Value() && b.Value() ? Widen(Iv::Of(a.lo + b.lo, a.hi + b.hi), 2e-7 * (a.Mag() + b.Mag())) : Iv::Unknown(); };
    auto scaled = [](Iv a, double k, double err) { return a.Value() ? Widen(Iv::Of(a.lo * k, a.hi * k), err * a.Mag()) : a; };
    for (size_t k = 0; k < targets.size(); ++k) switch (targets[k]) {
      case Tgt::kWidthMultiplier: mul(width, mods[k]); break;
      case Tgt::kHeightMultiplier: mul(height, mods[k]); break;
      case Tgt::kSizeMultiplier: mul(width, mods[k]), mul(height, mods[k]); break;
      case Tgt::kSlantOffsetInRadians: add(slant, mods[k]); break;
      case Tgt::kPinchOffset: add(pinch, mods[k]); break;
      case Tgt::kRotationOffsetInRadians: add(rot, mods[k]); break;
      case Tgt::kCornerRoundingOffset: add(round, mods[k]); break;
      case Tgt::kPositionOffsetXInMultiplesOfBrushSize: add(px, scaled(mods[k], size, 2e-7 * size)); break;
      case Tgt::kPositionOffsetYInMultiplesOfBrushSize: add(py, scaled(mods[k], size, 2e-7 * size)); break;
      case Tgt::kPositionOffsetForwardInMultiplesOfBrushSize:
        if (dir) add(px, scaled(mods[k], size * std::cos(*dir), 2e-6 * size)), add(py, scaled(mods[k], size * std::sin(*dir), 2e-6 * size));
        break;
      case Tgt::kPositionOffsetLateralInMultiplesOfBrushSize:  // a quarter turn from forward, x toward y
        if (dir) add(px, scaled(mods[k], -size * std::sin(*dir), 2e-6 * size)), add(py, scaled(mods[k], size * std::cos(*dir), 2e-6 * size));
        break;
      case Tgt::kHueOffsetInRadians: add(hue, mods[k]); break;
      case Tgt::kSaturationMultiplier: mul(sat, mods[k]); break;
      case Tgt::kLuminosity: add(lum, mods[k]); break;
      case Tgt::kOpacityMultiplier: mul(op, mods[k]); break;
    }
    auto clamp = [](Iv a, double lo, double hi) { return a.Value() ? Iv::Of(std::clamp(a.lo, lo, hi), std::clamp(a.hi, lo, hi)) : a; };
    auto plus = [](Iv a, double b) { return a.Value() ? Iv::Of(a.lo + b, a.hi + b) : a; };
    w.x = px, w.y = py;
    w.width = scaled(clamp(width, 0, 2), size * tip.scale.x, 0), w.height = scaled(clamp(height, 0, 2), size * tip.scale.y, 0);
    w.rounding = clamp(plus(round, tip.corner_rounding), 0, 1), w.pinch = clamp(plus(pinch, tip.pinch), 0, 1);
    w.slant = clamp(plus(slant, tip.slant.ValueInRadians()), -M_PI / 2, M_PI / 2);
    w.rotation = plus(rot, tip.rotation.ValueInRadians());
    w.hue = scaled(hue, 1 / kTwoPi, 0);
    w.saturation = clamp(sat, 0, 2), w.luminosity = clamp(lum, -1, 1), w.opacity = clamp(scaled(op, tip.opacity_multiplier, 0), 0, 2);
    out.push_back(w);
  }
  void Run() {
    double gap_d = (double)tip.particle_gap_distance_scale * size, gap_t = tip.particle_gap_duration.ToSeconds();
    bool particles = gap_d != 0 || gap_t != 0;
    std::optional<Metrics> last;
    for (size_t k = 0; k < in.size() && !ambiguous; ++k) {
      Point p = in[k ? k - 1 : 0].position, q = in[k + 1 < in.size() ? k + 1 : k].position;
      std::optional<double> dir;
      if (p != q) dir = std::atan2((double)q.y - p.y, (double)q.x - p.x);
      In here{in[k], in[k]};
      Metrics m{in[k].traveled_distance, in[k].elapsed_time.ToSeconds()};
      if (!particles || k == 0) {
        std::optional<Metrics> prev;
        if (k) prev = Metrics{in[k - 1].traveled_distance, in[k - 1].elapsed_time.ToSeconds()};
        Add(here, dir, prev);
        last = m;
        if (particles) out.push_back({.gap = true});
        continue;
      }
      double dd = (double)in[k].traveled_distance - in[k - 1].traveled_distance, dt = m.time - (double)in[k - 1].elapsed_time.ToSeconds();
      for (;;) {
        double left_d = m.distance - last->distance - gap_d, left_t = m.time - last->time - gap_t;
        double ed = last->distance_err + 2e-7 * (m.distance + gap_d), et = last->time_err + 2e-7 * (m.time + gap_t);
        bool unsure_d = gap_d != 0 && std::fabs(left_d) <= ed, unsure_t = gap_t != 0 && std::fabs(left_t) <= et;
        if ((gap_d != 0 && left_d < -ed) || (gap_t != 0 && left_t < -et)) break;
        if (unsure_d || unsure_t) { ambiguous = true; return; }
        double t = 1, te = 0;
        if (gap_d != 0) { double u = left_d / dd; if (u < t) t = u; te = std::max(te, dd > 0 ? ed / dd : 0); }
        if (gap_t != 0) { double u = left_t / dt; if (u < t) t = u; te = std::max(te, dt > 0 ? et / dt : 0); }
        te += 1e-6;
        if (t >= 1 + te) te = 0;
        auto at = [&](double u) {
          u = std::clamp(u, 0., 1.);
          const ModeledStrokeInput &a = in[k], &b = in[k - 1];
          auto mix = [&](double x, double y) { return (float)(x + (y - x) * u); };
          ModeledStrokeInput r;
          r.position = {mix(a.position.x, b.position.x), mix(a.position.y, b.position.y)};
          r.velocity = {mix(a.velocity.x, b.velocity.x), mix(a.velocity.y, b.velocity.y)};
          r.acceleration = {mix(a.acceleration.x, b.acceleration.x), mix(a.acceleration.y, b.acceleration.y)};
          r.traveled_distance = mix(a.traveled_distance, b.traveled_distance);
          r.elapsed_time = Duration32::Seconds(mix(a.elapsed_time.ToSeconds(), b.elapsed_time.ToSeconds()));
          // What the stroke does not have stays missing.
          if (a.pressure != StrokeInput::kNoPressure) r.pressure = mix(a.pressure, b.pressure);
          if (a.tilt != StrokeInput::kNoTilt) r.tilt = Angle::Radians(mix(a.tilt.ValueInRadians(), b.tilt.ValueInRadians()));
          if (a.orientation != StrokeInput::kNoOrientation) {
            double from = a.orientation.ValueInRadians(), turn = std::remainder((double)b.orientation.ValueInRadians() - from, kTwoPi), v = std::fmod(from + turn * u, kTwoPi);
            r.orientation = Angle::Radians((float)(v < 0 ? v + kTwoPi : v));
          }
          return r;
        };
        In i{at(t - te), at(t + te)};
        // Half a turn apart, the direction of the shorter way is a matter of rounding.
        bool half = in[k].orientation != StrokeInput::kNoOrientation && std::fabs(std::fabs(std::remainder((double)in[k].orientation.ValueInRadians() - in[k - 1].orientation.ValueInRadians(), kTwoPi)) - M_PI) < 1e-5;
        if (half) { ambiguous = true; return; }
        i.distance_err = te * dd + 3e-7 * m.distance + 1e-30, i.time_err = te * dt + 3e-7 * m.time + 1e-30;
        auto size_of = [](Vec v) { return std::hypot((double)v.x, (double)v.y); };
        i.velocity_err = 3e-7 * (size_of(in[k].velocity) + size_of(in[k - 1].velocity)), i.acceleration_err = 3e-7 * (size_of(in[k].acceleration) + size_of(in[k - 1].acceleration));
        ModeledStrokeInput mid = at(t);
        Metrics now{mid.traveled_distance, mid.elapsed_time.ToSeconds(), i.distance_err, i.time_err};
        Add(i, dir, last);
        out.push_back({.gap = true});
        last = now;
        if (out.size() > 100000) { ambiguous = true; return; }
      }
    }
  }
};
template <typename T> bool SameModeled(const T& a, const T& b) {
  return SameF(a.position.x, b.position.x) && SameF(a.position.y, b.position.y) && SameF(a.velocity.x, b.velocity.x) && SameF(a.velocity.y, b.velocity.y) && SameF(a.acceleration.x, b.acceleration.x) &&
         SameF(a.acceleration.y, b.acceleration.y) && SameF(a.traveled_distance, b.traveled_distance) && a.elapsed_time == b.elapsed_time && SameF(a.pressure, b.pressure) && a.tilt == b.tilt && a.orientation == b.orientation;
}
std::string Show(const BrushTipState& s) { return Cat("(", s.position.x, ",", s.position.y, ") ", s.width, "x", s.height, " round ", s.percent_radius, " rot ", s.rotation.ValueInRadians(), " slant ", s.slant.ValueInRadians(), " pinch ", s.pinch, " hue ", s.hue_offset_in_full_turns, " sat ", s.saturation_multiplier, " lum ", s.luminosity_shift, " op ", s.opacity_multiplier); }

// Compares, and returns the number of judged values.
struct Judge {
  Ctx& c;
  size_t index;
  const BrushTip& tip;
  const BrushTipState& got;
  std::string context;
  void One(const char* key, double v, Iv want, double slack, double modulo = 0) {
    if (want.k == Iv::kUnknown) { c.Count("values_undecided"); return; }
    slack += .02 * (want.hi - want.lo);  // intervals through steep curves are sampled
    double lo = want.lo - slack, hi = want.hi + slack;
    if (hi - lo > 1e-2 * (1 + want.Mag())) c.Count("values_wide"); else c.Count("values_judged");
    bool ok = v >= lo && v <= hi;
    if (modulo) { if (hi - lo >= modulo) return; double u = lo + std::fmod(v - lo, modulo); if (u < lo) u += modulo; ok = u <= hi || u - modulo >= lo - 1e-9; }
    if (!ok) c.Fail(key, "state ", index, ": got ", v, ", want between ", want.lo, " and ", want.hi, "; ", Show(got), "; ", context, "; ", tip);
  }
};
void CompareStates(Ctx& c, const BrushTip& tip, float size, const State& st, absl::Span<const ModeledStrokeInput> in, const std::vector<BrushTipState>& got, const std::string& context) {
  Reference ref(tip, size, st, in);
  ref.Run();
  if (ref.ambiguous) c.Count("particle_counts_undecided");
  else VH_REQUIRE(c, ref.out.size() == got.size(), "state-count", "got ", got.size(), " want ", ref.out.size(), " from ", in.size(), " inputs; ", context, "; ", tip);
  VH_REQUIRE(c, ref.out.size() <= got.size() || !ref.ambiguous, "state-count", "got ", got.size(), " want at least ", ref.out.size(), "; ", context);
  for (size_t i = 0; i < ref.out.size(); ++i) {
    const Want& w = ref.out[i];
    const BrushTipState& s = got[i];
    c.Count("states");
    if (w.gap) { VH_REQUIRE(c, s.width == 0 && s.height == 0, "gap-state", "state ", i, ": ", Show(s)); continue; }
    Judge j{c, i, tip, s, context};
    double pos = 1e-6 * (std::fabs(s.position.x) + std::fabs(s.position.y) + size) + 1e-30;
    j.One("position", s.position.x, w.x, pos), j.One("position", s.position.y, w.y, pos);
    j.One("width", s.width, w.width, 1e-6 * size * 2 * tip.scale.x), j.One("height", s.height, w.height, 1e-6 * size * 2 * tip.scale.y);
    j.One("corner-rounding", s.percent_radius, w.rounding, 1e-6), j.One("pinch", s.pinch, w.pinch, 1e-6), j.One("slant", s.slant.ValueInRadians(), w.slant, 1e-6);
    j.One("rotation", s.rotation.ValueInRadians(), w.rotation, 1e-5 + 1e-6 * w.rotation.Mag(), kTwoPi);
    j.One("hue", s.hue_offset_in_full_turns, w.hue, 2e-6 + 1e-6 * w.hue.Mag(), 1);
    j.One("saturation", s.saturation_multiplier, w.saturation, 1e-6), j.One("luminosity", s.luminosity_shift, w.luminosity, 1e-6), j.One("opacity", s.opacity_multiplier, w.opacity, 1e-6);
    VH_REQUIRE(c, s.width >= 0 && s.height >= 0 && s.percent_radius >= 0 && s.percent_radius <= 1 && s.pinch >= 0 && s.pinch <= 1 && std::fabs(s.slant.ValueInRadians()) <= ink::kQuarterTurn.ValueInRadians() &&
                      s.hue_offset_in_full_turns >= 0 && s.hue_offset_in_full_turns < 1 && s.saturation_multiplier >= 0 && s.saturation_multiplier <= 2 && std::fabs(s.luminosity_shift) <= 1 && s.opacity_multiplier >= 0 && s.opacity_multiplier <= 2,
               "state-range", "state ", i, ": ", Show(s), "; ", tip);
  }
  // The rest of an undecided sequence is particles and gaps in turn.
  for (size_t i = ref.out.size(); i < got.size(); ++i) if (i % 2) VH_REQUIRE(c, got[i].width == 0 && got[i].height == 0, "gap-state", "state ", i);
}
BrushTip TipFor(Rng& r, bool hostile) {
  BrushOpts o;
  o.hostile = hostile;
  BrushTip t = RandTip(r, o);
  for (int i = r.Int(0, 4); i > 0; --i) t.behaviors.push_back(RandBehavior(r, hostile));
  if (r.Chance(.05)) {  // a sum or product that overflows or not, and what is made of it
    auto big = [&] { return BrushBehavior::ConstantNode{r.Of({-1.f, 1.f}) * r.Of({kMax, 2e38f, 1.6e38f, 1e20f, 1e19f, 1.f})}; };
    BrushBehavior b{{big(), big(), BrushBehavior::BinaryOpNode{(BrushBehavior::BinaryOp)r.Below(2)}}};
    if (r.Chance(.3)) b.nodes.push_back(BrushBehavior::DampingNode{BrushBehavior::DampingSource::kTimeInSeconds, r.F(0, 1)});
    if (r.Chance(.7)) b.nodes.push_back(BrushBehavior::ResponseNode{RandEasing(r)});
    b.nodes.push_back(BrushBehavior::TargetNode{r.Of({Tgt::kPinchOffset, Tgt::kOpacityMultiplier, Tgt::kHueOffsetInRadians, Tgt::kCornerRoundingOffset}), {r.F(0, 1), r.F(0, 1)}});
    t.behaviors.push_back(b);
  }
  return t;
}
// Runs one update and accumulates the fixed states.
struct Follower {
  BrushTipModeler m;
  std::vector<BrushTipState> fixed, all;
  void Start(const BrushTip* t, float size) { m.StartStroke(t, size); fixed.clear(); all.clear(); }
  void Update(const State& s, absl::Span<const ModeledStrokeInput> in) {
    m.UpdateStroke(s, in);
    for (const auto& x : m.NewFixedTipStates()) fixed.push_back(x);
    all = fixed;
    for (const auto& x : m.VolatileTipStates()) all.push_back(x);
  }
};
// Made-up modeled inputs that keep the documented promises of the modeler.
struct Synth {
  Rng& r;
  bool pressure, tilt, orientation;
  double x = 0, y = 0, dir = 0, step, t, speed;
  float distance = 0, fx = 0, fy = 0;
  bool first = true;
  explicit Synth(Rng& rng, double size) : r(rng) {
    pressure = r.Chance(.5), tilt = r.Chance(.5), orientation = r.Chance(.5);
    step = size * r.LogReal(.02, 3), t = r.Chance(.7) ? 0 : r.Real(0, 3), dir = r.Real(-4, 4), speed = size * r.LogReal(.1, 100);
    x = r.Real(-50, 50), y = r.Real(-50, 50);
  }
  ModeledStrokeInput Next() {
    ModeledStrokeInput m;
    if (!first) {
      if (r.Chance(.1)) dir += M_PI; else if (r.Chance(.1)) dir = std::floor(r.Real(-2, 3)) * M_PI / 2; else dir += r.Real(-1, 1);
      double d = step * r.Real(.1, 2);
      float ox = fx, oy = fy;
      x += d * std::cos(dir), y += d * std::sin(dir);
      distance += std::hypot((float)x - ox, (float)y - oy);
      t += r.Chance(.1) ? 0 : r.Real(.001, .03);
    }
    first = false;
    fx = (float)x, fy = (float)y;
    m.position = {fx, fy}, m.traveled_distance = distance, m.elapsed_time = Duration32::Seconds((float)t);
    if (!r.Chance(.1)) m.velocity = {(float)r.Real(-speed, speed), (float)r.Real(-speed, speed)};
    if (!r.Chance(.1)) m.acceleration = {(float)r.Real(-9 * speed, 9 * speed), (float)r.Real(-9 * speed, 9 * speed)};
    if (pressure) m.pressure = r.Chance(.2) ? r.Of({0.f, 1.f}) : r.F(0, 1);
    if (tilt) m.tilt = r.Chance(.15) ? Angle() : r.Chance(.1) ? ink::kQuarterTurn : Angle::Radians(r.F(0, 1.57));
    if (orientation) m.orientation = Angle::Radians(r.Chance(.1) ? 0 : r.Chance(.1) ? std::nextafterf(ink::kFullTurn.ValueInRadians(), 0) : r.F(0, 6.283));
    return m;
  }
};
VH_PROPERTY(S06) {
  Rng& r = c.rng;
  bool hostile = r.Chance(.1);
  float size = (float)r.LogReal(.3, 40);
  int strokes = r.Chance(.3) ? 2 : 1;
  std::vector<BrushTip> tips{TipFor(r, hostile)};
  tips.push_back(strokes < 2 || r.Chance(.3) ? tips[0] : TipFor(r, hostile));
  std::vector<BrushTip> tips0 = tips;
  Follower f;
  c.Sig(tips[0].behaviors.size());
  for (int s = 0; s < strokes; ++s) {
    const BrushTip& tip = tips[s];
    Follower fresh;  // used for this stroke only
    f.Start(&tip, size), fresh.Start(&tip, size);
    size_t most = 0;
    auto check = [&](const State& st, absl::Span<const ModeledStrokeInput> in, int update) {
      size_t before = f.fixed.size();
      f.Update(st, in), fresh.Update(st, in);
      c.Count("updates");
      std::string context = Cat("stroke ", s, " update ", update, ", ", in.size(), " inputs, ", st.stable_input_count, " stable, ", st.real_input_count, " real, size ", size);
      VH_REQUIRE(c, f.m.HasUnfinishedTimeBehaviors(st) == fresh.m.HasUnfinishedTimeBehaviors(st) && f.fixed.size() == fresh.fixed.size() && f.all.size() == fresh.all.size(), "reused", "a modeler used for a stroke before differs from a new one: unfinished=", f.m.HasUnfinishedTimeBehaviors(st), " final=", f.fixed.size(), " of ", f.all.size(), ", ", context);
      if (in.empty()) { VH_REQUIRE(c, f.all.empty(), "empty", context); return; }
      CompareStates(c, tip, size, st, in, f.all, context);
      if (f.fixed.size() > before) c.Count("updates_that_fixed_states");
      c.Count("fixed_states", f.fixed.size() - before);
      most = std::max(most, f.all.size());
      c.Sig(f.all.size()), c.Sig(f.all.back().width), c.Sig(f.all.back().position.x);
      if (!tip.behaviors.empty() && f.all.size() > 2) c.NonTrivial();
      // With no unfinished behavior, time alone changes nothing.
      if (!f.m.HasUnfinishedTimeBehaviors(st)) {
        State later = st;
        later.complete_elapsed_time = std::max(st.complete_elapsed_time, in.back().elapsed_time) + Duration32::Seconds(r.F(.01, 100));
        bool predicted = in.back().elapsed_time > st.total_real_elapsed_time;
        if (!predicted) { CompareStates(c, tip, size, later, in, f.all, "as if later, " + context); c.Count("finished_checks"); }
      } else c.Count("unfinished");
    };
    if (r.Chance(.5)) {  // the real modeler
      StrokeInputModeler m;
      BrushFamily::InputModel model;
      if (r.Chance(.5)) model = BrushFamily::SpringModelV1(); else model = BrushFamily::SpringModelV2();
      m.StartStroke(model, size * r.F(.005, .2));
      Pen pen(r, size);
      if (tip.particle_gap_distance_scale != 0 || tip.particle_gap_duration != Duration32::Zero()) pen.step = std::min<double>(pen.step, size * .5);
      for (int u = 0, n = r.Int(1, 6); u < n; ++u) {
        StrokeInputBatch real, pred;
        if (!r.Chance(.2)) real = Batch(Take(pen, r, r.Int(1, 8)));
        Pen guess = pen;
        if (r.Chance(.4)) pred = Batch(Take(guess, r, r.Int(1, 4)));
        m.ExtendStroke(real, pred, Duration32::Seconds((float)(pen.t + r.Of({0., .01, .3, 2.}))));
        check(m.GetState(), m.GetModeledInputs(), u);
      }
    } else {
      Synth y(r, size);
      State st;
      st.tool_type = (StrokeInput::ToolType)r.Below(4);
      if (r.Chance(.5)) st.stroke_unit_length = ink::PhysicalDistance::Centimeters(r.F(.005, .2));
      std::vector<ModeledStrokeInput> stable;
      double now = 0;
      for (int u = 0, n = r.Int(1, 6); u < n; ++u) {
        for (int k = r.Int(0, 6); k > 0; --k) stable.push_back(y.Next());
        Synth tail = y;
        std::vector<ModeledStrokeInput> in = stable;
        int real = r.Int(1, 4), pred = r.Chance(.5) ? 0 : r.Int(1, 4);
        for (int k = 0; k < real + pred; ++k) in.push_back(tail.Next());
        st.stable_input_count = stable.size(), st.real_input_count = stable.size() + real;
        const auto& last_real = in[st.real_input_count - 1];
        st.total_real_distance = last_real.traveled_distance, st.total_real_elapsed_time = last_real.elapsed_time;
        now = std::max(now, (double)last_real.elapsed_time.ToSeconds()) + (r.Chance(.5) ? 0 : r.Real(0, .5));
        st.complete_traveled_distance = in.back().traveled_distance, st.complete_elapsed_time = std::max(in.back().elapsed_time, Duration32::Seconds((float)now));
        check(st, in, u);
      }
    }
    c.Count("states_in_stroke", most);
  }
  VH_REQUIRE(c, tips == tips0, "tip-changed");
  c.Sample(f.all.size(), " states, last ", f.all.empty() ? std::string() : Show(f.all.back()), "; ", tips[0]);
}

// ---------------------------------------------------------------- S05
VH_PROPERTY(S05) {
  Rng& r = c.rng;
  StrokeInputModeler m, plain;
  int strokes = r.Chance(.4) ? 2 : 1;
  for (int s = 0; s < strokes; ++s) {
    float size = (float)r.LogReal(.3, 40), eps = size * (float)r.LogReal(.002, .4);
    BrushFamily::InputModel model;
    if (r.Chance(.5)) model = BrushFamily::SpringModelV1(); else model = BrushFamily::SpringModelV2();
    m.StartStroke(model, eps), plain.StartStroke(model, eps);
    VH_REQUIRE(c, m.GetModeledInputs().empty() && m.GetState().stable_input_count == 0 && m.GetState().real_input_count == 0 && m.GetState().complete_traveled_distance == 0 && m.GetState().complete_elapsed_time == Duration32::Zero() &&
                      m.GetState().total_real_distance == 0 && m.GetState().total_real_elapsed_time == Duration32::Zero() && m.GetState().tool_type == StrokeInput::ToolType::kUnknown && !m.GetState().stroke_unit_length, "start-resets");
    Pen pen(r, size);
    std::vector<StrokeInput> all;
    std::vector<ModeledStrokeInput> stable;
    double diam = 0;
    for (int u = 0, n = r.Int(1, 8); u < n; ++u) {
      StrokeInputBatch real, pred;
      std::vector<StrokeInput> fresh, guesses;
      if (!r.Chance(.25)) fresh = Take(pen, r, r.Int(1, 7));
      if (r.Chance(.4)) { Pen guess = pen; guesses = Take(guess, r, r.Int(1, 4)); }
      // A prediction that the pen stays where it is, which may add nothing.
      const StrokeInput* last = !fresh.empty() ? &fresh.back() : !all.empty() ? &all.back() : nullptr;
      if (!guesses.empty() && last && r.Chance(.3)) {
        float later = guesses[0].elapsed_time.ToSeconds() - last->elapsed_time.ToSeconds(), step = eps * (float)r.LogReal(1e-3, 2);
        guesses.assign(1, *last);
        guesses[0].position += Vec{r.Chance(.5) ? step : 0, r.Chance(.5) ? -step : 0};
        guesses[0].elapsed_time = Duration32::Seconds(last->elapsed_time.ToSeconds() + std::max(later, 0.f) * r.Of({1e-3f, .1f, 1.f}));
        if (guesses[0].position == last->position && guesses[0].elapsed_time == last->elapsed_time) guesses.clear();
        c.Count("predictions_to_stay");
      }
      if (!fresh.empty()) real = Batch(fresh);
      if (!guesses.empty()) pred = Batch(guesses);
      for (auto& i : fresh) all.push_back(i);
      Duration32 now = Duration32::Seconds((float)(r.Chance(.2) ? 0 : pen.t + r.Of({0., .01, 1.})));
      m.ExtendStroke(real, pred, now);
      const State& st = m.GetState();
      auto in = m.GetModeledInputs();
      std::string ctx = Cat("stroke ", s, " update ", u, ": ", fresh.size(), " real, ", guesses.size(), " predicted, ", in.size(), " modeled, ", st.stable_input_count, " stable, ", st.real_input_count, " real");
      c.Count("updates"), c.Count("modeled", in.size());
      // Counts and the stable prefix.
      VH_REQUIRE(c, st.stable_input_count >= stable.size() && st.stable_input_count <= st.real_input_count && st.real_input_count <= in.size(), "counts", ctx);
      if (!all.empty()) VH_REQUIRE(c, st.real_input_count > 0, "no-real-inputs", ctx);
      if (guesses.empty()) VH_REQUIRE(c, st.real_input_count == in.size(), "predictions-remain", ctx);
      if (all.empty()) VH_REQUIRE(c, st.real_input_count == 0, "counts", ctx);
      for (size_t i = 0; i < stable.size(); ++i) VH_REQUIRE(c, SameModeled(stable[i], in[i]), "stable-changed", ctx, " input ", i);
      if (st.stable_input_count > stable.size()) c.Count("stable_growth");
      stable.assign(in.begin(), in.begin() + st.stable_input_count);
      // Every modeled input.
      const StrokeInput* any = !all.empty() ? &all[0] : !guesses.empty() ? &guesses[0] : nullptr;
      VH_REQUIRE(c, in.empty() == (any == nullptr), "empty", ctx);
      for (size_t i = 0; i < in.size(); ++i) {
        const auto& k = in[i];
        VH_REQUIRE(c, std::isfinite(k.position.x) && std::isfinite(k.position.y) && std::isfinite(k.velocity.x) && std::isfinite(k.velocity.y) && std::isfinite(k.acceleration.x) && std::isfinite(k.acceleration.y) && k.elapsed_time.IsFinite(), "finite", ctx);
        bool p = any->HasPressure(), t = any->HasTilt(), o = any->HasOrientation();
        VH_REQUIRE(c, p ? k.pressure >= 0 && k.pressure <= 1 : k.pressure == StrokeInput::kNoPressure, "pressure", ctx, " input ", i, ": ", k.pressure);
        VH_REQUIRE(c, t ? k.tilt >= Angle() && k.tilt <= ink::kQuarterTurn : k.tilt == StrokeInput::kNoTilt, "tilt", ctx, " input ", i, ": ", k.tilt);
        VH_REQUIRE(c, o ? k.orientation >= Angle() && k.orientation <= ink::kFullTurn : k.orientation == StrokeInput::kNoOrientation, "orientation", ctx, " input ", i, ": ", k.orientation);
        if (i == 0) {
          VH_REQUIRE(c, k.traveled_distance == 0, "distance", ctx);
          VH_REQUIRE(c, k.position == any->position && k.elapsed_time == any->elapsed_time, "first-input", ctx, " at ", k.position, " for ", any->position);
          continue;
        }
        double d = std::hypot((double)k.position.x - in[i - 1].position.x, (double)k.position.y - in[i - 1].position.y);
        diam = std::max({diam, std::fabs((double)k.position.x), std::fabs((double)k.position.y)});
        VH_REQUIRE(c, d >= eps * (1 - 1e-6), "spacing", ctx, " input ", i, ": ", d, " with epsilon ", eps);
        VH_REQUIRE(c, k.elapsed_time >= in[i - 1].elapsed_time, "time-order", ctx, " input ", i);
        double travelled = (double)k.traveled_distance - in[i - 1].traveled_distance;
        VH_REQUIRE(c, std::fabs(travelled - d) <= 1e-6 * d + 2e-7 * k.traveled_distance, "distance", ctx, " input ", i, ": ", travelled, " for ", d);
      }
      // The summary.
      if (any) VH_REQUIRE(c, st.tool_type == any->tool_type && st.stroke_unit_length.has_value() == any->HasStrokeUnitLength() && (!st.stroke_unit_length || *st.stroke_unit_length == any->stroke_unit_length), "tool-or-unit", ctx);
      VH_REQUIRE(c, st.complete_elapsed_time == (in.empty() ? now : std::max(now, in.back().elapsed_time)), "complete-time", ctx, ": ", st.complete_elapsed_time);
      VH_REQUIRE(c, st.complete_traveled_distance == (in.empty() ? 0 : in.back().traveled_distance), "complete-distance", ctx, ": ", st.complete_traveled_distance);
      bool has_real = st.real_input_count > 0;
      VH_REQUIRE(c, st.total_real_distance == (has_real ? in[st.real_input_count - 1].traveled_distance : 0) && st.total_real_elapsed_time == (has_real ? in[st.real_input_count - 1].elapsed_time : Duration32::Zero()), "real-totals", ctx);
      // Predictions never influence the stable part.
      if (!fresh.empty()) {
        plain.ExtendStroke(real, StrokeInputBatch(), now);
        auto q = plain.GetModeledInputs();
        VH_REQUIRE(c, plain.GetState().stable_input_count == st.stable_input_count, "prediction-influence", ctx);
        for (size_t i = 0; i < st.stable_input_count; ++i) VH_REQUIRE(c, SameModeled(q[i], in[i]), "prediction-influence", ctx, " input ", i);
        c.Count("compared_without_predictions");
      }
      // Without predictions, or with dropped ones, the end is modeled as the end.
      if (guesses.empty() && !all.empty()) {
        auto q = plain.GetModeledInputs();
        VH_REQUIRE(c, q.size() == in.size(), "prediction-influence", ctx, " for ", q.size());
        for (size_t i = 0; i < q.size(); ++i) VH_REQUIRE(c, SameModeled(q[i], in[i]), "prediction-influence", ctx, " input ", i);
        if (fresh.empty()) c.Count("ends_compared_after_dropped_predictions");
      }
      if (stable.size() > 1 && in.size() > st.real_input_count) c.NonTrivial();
      c.Sig(in.size()), c.Sig(st.stable_input_count);
      if (!in.empty()) c.Sig(in.back().traveled_distance);
    }
    c.Sample(all.size(), " inputs, ", m.GetModeledInputs().size(), " modeled, traveled ", m.GetState().complete_traveled_distance);
  }
}
}  // namespace
}  // namespace vh
