#ifndef VERIF_SHIM_SM_PARAMS_H_
#define VERIF_SHIM_SM_PARAMS_H_
#include <cstddef>
#include <variant>
#include "ink_stroke_modeler/types.h"
namespace ink::stroke_model {
struct PositionModelerParams {
  float spring_mass_constant = 11.f / 32400;
  float drag_constant = 72.f;
  struct LoopContractionMitigationParameters {
    bool is_enabled = false;
    float speed_lower_bound = -1;
    float speed_upper_bound = -1;
    float interpolation_strength_at_speed_lower_bound = -1;
    float interpolation_strength_at_speed_upper_bound = -1;
    Duration min_speed_sampling_window{-1};
    int min_discrete_speed_samples = -1;
  };
  LoopContractionMitigationParameters loop_contraction_mitigation_params;
};
struct SamplingParams {
  double min_output_rate = -1;
  float end_of_stroke_stopping_distance = -1;
  int end_of_stroke_max_iterations = 20;
  int max_outputs_per_call = 100000;
  double max_estimated_angle_to_traverse_per_input = -1;
};
struct StylusStateModelerParams {
  int max_input_samples = 10;
  bool use_stroke_normal_projection = false;
  int min_input_samples = -1;
  Duration min_sample_duration{-1};
};
struct WobbleSmootherParams {
  bool is_enabled = true;
  Duration timeout{-1};
  float speed_floor = -1;
  float speed_ceiling = -1;
};
struct DisabledPredictorParams {};
struct StrokeEndPredictorParams {};
using PredictionParams = std::variant<StrokeEndPredictorParams, DisabledPredictorParams>;
struct StrokeModelParams {
  WobbleSmootherParams wobble_smoother_params;
  PositionModelerParams position_modeler_params;
  SamplingParams sampling_params;
  StylusStateModelerParams stylus_state_modeler_params;
  PredictionParams prediction_params = StrokeEndPredictorParams{};
};
}  // namespace ink::stroke_model
#endif
