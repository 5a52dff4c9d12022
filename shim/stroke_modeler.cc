#include "ink_stroke_modeler/stroke_modeler.h"
#include <algorithm>
#include <cmath>
namespace ink::stroke_model {
thread_local ObservedCalls g_observed;
namespace {
double Lerp(double a, double b, double t) { return a + (b - a) * t; }
bool Fin(const Input& i) {
  return std::isfinite(i.position.x) && std::isfinite(i.position.y) && std::isfinite(i.time.Value()) &&
         std::isfinite(i.pressure) && std::isfinite(i.tilt) && std::isfinite(i.orientation);
}
double ProjectOnSeg(double ax, double ay, double bx, double by, double px, double py) {
  double dx = bx - ax, dy = by - ay, d2 = dx * dx + dy * dy;
  if (d2 == 0) return 0;
  return std::clamp(((px - ax) * dx + (py - ay) * dy) / d2, 0.0, 1.0);
}
}  // namespace
absl::Status StrokeModeler::Reset(const StrokeModelParams& p) {
  ++g_observed.resets;
  g_observed.last_reset = p;
  if (!(p.sampling_params.min_output_rate > 0) || !(p.sampling_params.end_of_stroke_stopping_distance > 0) ||
      p.sampling_params.end_of_stroke_max_iterations <= 0 || p.sampling_params.end_of_stroke_max_iterations > 1000)
    return absl::InvalidArgumentError("bad SamplingParams");
  const auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  if (l.is_enabled) {
    if (!(l.speed_lower_bound >= 0) || !(l.speed_upper_bound >= l.speed_lower_bound) || !std::isfinite(l.speed_upper_bound) ||
        !(l.interpolation_strength_at_speed_lower_bound >= 0 && l.interpolation_strength_at_speed_lower_bound <= 1) ||
        !(l.interpolation_strength_at_speed_upper_bound >= 0 && l.interpolation_strength_at_speed_upper_bound <= 1) ||
        !(l.min_speed_sampling_window.Value() > 0) || l.min_discrete_speed_samples <= 0)
      return absl::InvalidArgumentError("bad LoopContractionMitigationParameters");
  }
  const auto& s = p.stylus_state_modeler_params;
  if (s.use_stroke_normal_projection ? !(s.min_input_samples > 0 && s.min_sample_duration.Value() > 0) : !(s.max_input_samples > 0))
    return absl::InvalidArgumentError("bad StylusStateModelerParams");
  if (p.wobble_smoother_params.is_enabled) return absl::InvalidArgumentError("stand-in: wobble smoother not implemented");
  params_ = p;
  return Reset();
}
absl::Status StrokeModeler::Reset() {
  if (!params_) return absl::FailedPreconditionError("no params");
  st_ = State();
  has_saved_ = false;
  return absl::OkStatus();
}
StrokeModeler::Tip StrokeModeler::Step(const Tip& s, double anx, double any, double t) const {
  const auto& p = params_->position_modeler_params;
  double dt = t - s.t;
  Tip r;
  r.ax = (anx - s.x) / p.spring_mass_constant - p.drag_constant * s.vx;
  r.ay = (any - s.y) / p.spring_mass_constant - p.drag_constant * s.vy;
  r.vx = s.vx + dt * r.ax;
  r.vy = s.vy + dt * r.ay;
  r.x = s.x + dt * r.vx;
  r.y = s.y + dt * r.vy;
  r.t = t;
  return r;
}
Result StrokeModeler::ToResult(const Tip& t) const {
  Result r;
  double px = t.x, py = t.y;
  // Nearest raw segment, used for stylus state and for loop mitigation.
  const auto& q = st_.recent;
  double best = INFINITY, bu = 0;
  size_t bi = 0;
  for (size_t i = 0; i + 1 < q.size(); ++i) {
    double u = ProjectOnSeg(q[i].position.x, q[i].position.y, q[i + 1].position.x, q[i + 1].position.y, px, py);
    double x = Lerp(q[i].position.x, q[i + 1].position.x, u), y = Lerp(q[i].position.y, q[i + 1].position.y, u);
    double d = std::hypot(x - px, y - py);
    if (d < best) { best = d; bi = i; bu = u; }
  }
  if (q.size() == 1) { r.pressure = q[0].pressure; r.tilt = q[0].tilt; r.orientation = q[0].orientation; }
  else if (!std::isfinite(best)) { r.pressure = q.back().pressure; r.tilt = q.back().tilt; r.orientation = q.back().orientation; }
  else {
    const Input &a = q[bi], &b = q[bi + 1];
    auto mix = [&](float x, float y) { return x < 0 || y < 0 ? -1.f : (float)Lerp(x, y, bu); };
    r.pressure = mix(a.pressure, b.pressure);
    r.tilt = mix(a.tilt, b.tilt);
    if (a.orientation < 0 || b.orientation < 0) r.orientation = -1;
    else {
      const double T = 2 * M_PI;
      double d = b.orientation - a.orientation;
      while (d > M_PI) d -= T;
      while (d < -M_PI) d += T;
      double o = a.orientation + d * bu;
      if (o < 0) o += T;
      if (o >= T) o -= T;
      r.orientation = (float)o;
      if (r.orientation >= (float)T) r.orientation = 0;
    }
    const auto& l = params_->position_modeler_params.loop_contraction_mitigation_params;
    if (l.is_enabled) {
      double sp = std::hypot(t.vx, t.vy), w;
      if (l.speed_upper_bound <= l.speed_lower_bound) w = l.interpolation_strength_at_speed_upper_bound;
      else w = Lerp(l.interpolation_strength_at_speed_lower_bound, l.interpolation_strength_at_speed_upper_bound,
                    std::clamp((sp - l.speed_lower_bound) / (l.speed_upper_bound - l.speed_lower_bound), 0.0, 1.0));
      double nx = Lerp(a.position.x, b.position.x, bu), ny = Lerp(a.position.y, b.position.y, bu);
      px = Lerp(nx, px, w);
      py = Lerp(ny, py, w);
    }
  }
  r.position = {(float)px, (float)py};
  r.velocity = {(float)t.vx, (float)t.vy};
  r.acceleration = {(float)t.ax, (float)t.ay};
  r.time = Time(t.t);
  return r;
}
absl::Status StrokeModeler::Update(const Input& in, std::vector<Result>& results) {
  ++g_observed.updates;
  auto reject = [&](absl::Status s) { ++g_observed.rejected; return s; };
  if (!params_) return reject(absl::FailedPreconditionError("no params"));
  if (!Fin(in)) return reject(absl::InvalidArgumentError("non-finite input"));
  if (st_.last) {
    if (*st_.last == in) return reject(absl::InvalidArgumentError("duplicate input"));
    if (in.time < st_.last->time) return reject(absl::InvalidArgumentError("input travels back in time"));
  }
  const auto& sp = params_->sampling_params;
  const auto& ss = params_->stylus_state_modeler_params;
  auto remember = [&] {
    st_.recent.push_back(in);
    size_t keep = ss.use_stroke_normal_projection ? std::max(ss.min_input_samples, 2) : ss.max_input_samples;
    while (st_.recent.size() > keep &&
           (!ss.use_stroke_normal_projection || in.time.Value() - st_.recent[1].time.Value() > ss.min_sample_duration.Value()))
      st_.recent.pop_front();
  };
  if (in.event_type == Input::EventType::kDown) {
    ++g_observed.downs;
    if (st_.last) return reject(absl::FailedPreconditionError("kDown while a stroke is in progress"));
    st_.recent.clear();
    remember();
    st_.tip = Tip{in.position.x, in.position.y, 0, 0, 0, 0, in.time.Value()};
    st_.last = in;
    results.push_back(ToResult(st_.tip));
    return absl::OkStatus();
  }
  if (!st_.last) return reject(absl::FailedPreconditionError("kMove or kUp with no stroke in progress"));
  double t0 = st_.last->time.Value(), t1 = in.time.Value();
  double n_d = std::ceil((t1 - t0) * sp.min_output_rate);
  if (n_d > sp.max_outputs_per_call) return reject(absl::InvalidArgumentError("too many outputs"));
  int n = (int)n_d;
  Input prev = *st_.last;
  remember();
  size_t before = results.size();
  for (int i = 1; i <= n; ++i) {
    double u = (double)i / n;
    st_.tip = Step(st_.tip, Lerp(prev.position.x, in.position.x, u), Lerp(prev.position.y, in.position.y, u),
                   i == n ? t1 : Lerp(t0, t1, u));
    results.push_back(ToResult(st_.tip));
  }
  if (in.event_type == Input::EventType::kMove) {
    ++g_observed.moves;
    st_.last = in;
    return absl::OkStatus();
  }
  ++g_observed.ups;
  double dt = 1.0 / sp.min_output_rate, stop = sp.end_of_stroke_stopping_distance;
  Tip cur = st_.tip;
  for (int i = 0; i < sp.end_of_stroke_max_iterations; ++i) {
    Tip c = Step(cur, in.position.x, in.position.y, cur.t + dt);
    if (std::hypot(c.x - cur.x, c.y - cur.y) < stop) break;
    double u = ProjectOnSeg(cur.x, cur.y, c.x, c.y, in.position.x, in.position.y);
    if (u < 1) { dt *= 0.5; continue; }
    results.push_back(ToResult(c));
    cur = c;
    if (std::hypot(c.x - in.position.x, c.y - in.position.y) < stop) break;
  }
  st_.tip = cur;
  if (results.size() == before) results.push_back(ToResult(st_.tip));
  st_.last.reset();
  return absl::OkStatus();
}
}  // namespace ink::stroke_model
