#ifndef VERIF_SHIM_SM_MODELER_H_
#define VERIF_SHIM_SM_MODELER_H_
#include <deque>
#include <optional>
#include <vector>
#include "absl/status/status.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/types.h"
namespace ink::stroke_model {
class StrokeModeler {
 public:
  absl::Status Reset(const StrokeModelParams& params);
  absl::Status Reset();
  absl::Status Update(const Input& input, std::vector<Result>& results);
  void Save() { saved_ = st_; has_saved_ = true; }
  void Restore() { if (has_saved_) st_ = saved_; }
 private:
  struct Tip { double x = 0, y = 0, vx = 0, vy = 0, ax = 0, ay = 0, t = 0; };
  struct State {
    std::optional<Input> last;
    Tip tip;
    std::deque<Input> recent;
  };
  Tip Step(const Tip& s, double ax, double ay, double t) const;
  Result ToResult(const Tip& t) const;
  std::optional<StrokeModelParams> params_;
  State st_, saved_;
  bool has_saved_ = false;
};
// What the code under test handed to the modeler, for monitors.
struct ObservedCalls {
  StrokeModelParams last_reset;
  unsigned long resets = 0, updates = 0, downs = 0, moves = 0, ups = 0, rejected = 0;
};
extern thread_local ObservedCalls g_observed;
}  // namespace ink::stroke_model
#endif
