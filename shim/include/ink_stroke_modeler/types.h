// Stand-in for google/ink-stroke-modeler (not available offline). Same API
// surface and the same contract (spring model, linear upsampling, catch-up on
// kUp, Save/Restore); see DESIGN.md.
#ifndef VERIF_SHIM_SM_TYPES_H_
#define VERIF_SHIM_SM_TYPES_H_
namespace ink::stroke_model {
struct Vec2 {
  float x = 0, y = 0;
  friend bool operator==(const Vec2&, const Vec2&) = default;
};
class Duration {
 public:
  constexpr Duration() = default;
  explicit constexpr Duration(double v) : v_(v) {}
  constexpr double Value() const { return v_; }
  friend auto operator<=>(const Duration&, const Duration&) = default;
 private:
  double v_ = 0;
};
class Time {
 public:
  constexpr Time() = default;
  explicit constexpr Time(double v) : v_(v) {}
  constexpr double Value() const { return v_; }
  friend auto operator<=>(const Time&, const Time&) = default;
 private:
  double v_ = 0;
};
struct Input {
  enum class EventType { kDown, kMove, kUp };
  EventType event_type = EventType::kDown;
  Vec2 position;
  Time time;
  float pressure = -1;
  float tilt = -1;
  float orientation = -1;
  friend bool operator==(const Input&, const Input&) = default;
};
struct Result {
  Vec2 position;
  Vec2 velocity;
  Vec2 acceleration;
  Time time;
  float pressure = -1;
  float tilt = -1;
  float orientation = -1;
};
}  // namespace ink::stroke_model
#endif
