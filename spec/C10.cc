// Which parameters are accepted.
#include "common.h"
//@ * ieee=* budget=40000
//@ all budget=40000
namespace vp {
inline bool fin(double v) { return std::isfinite(v); }
inline bool pos(double v) { return std::isfinite(v) && v > 0; }
inline bool nonneg(double v) { return std::isfinite(v) && v >= 0; }
inline int code(const absl::Status& s) { return static_cast<int>(s.code()); }
inline int invalid_unless(bool ok) { return ok ? 0 : 3; }

bool loop_ok(const PositionModelerParams::LoopContractionMitigationParameters& l) {
  if (!l.is_enabled) return true;
  double w = l.min_speed_sampling_window.Value();
  return nonneg(l.speed_lower_bound) && fin(l.speed_upper_bound) && l.speed_upper_bound >= l.speed_lower_bound &&
         nonneg(l.interpolation_strength_at_speed_upper_bound) && fin(l.interpolation_strength_at_speed_lower_bound) &&
         l.interpolation_strength_at_speed_lower_bound <= 1 &&
         l.interpolation_strength_at_speed_upper_bound <= l.interpolation_strength_at_speed_lower_bound &&
         1 <= l.min_discrete_speed_samples && l.min_discrete_speed_samples <= 10000 && pos(w) && w <= 10000;
}
bool position_ok(const PositionModelerParams& p) {
  return loop_ok(p.loop_contraction_mitigation_params) && pos(p.spring_mass_constant) && pos(p.drag_constant);
}
bool sampling_ok(const SamplingParams& p) {
  double angle = p.max_estimated_angle_to_traverse_per_input;
  return pos(p.min_output_rate) && pos(p.end_of_stroke_stopping_distance) && 0 < p.end_of_stroke_max_iterations &&
         p.end_of_stroke_max_iterations <= 1000 && 0 < p.max_outputs_per_call &&
         (angle == -1 || (pos(angle) && angle < 3.14159265358979323846));
}
bool stylus_ok(const StylusStateModelerParams& p) {
  if (p.use_stroke_normal_projection) return 0 < p.min_input_samples && pos(p.min_sample_duration.Value());
  return 0 < p.max_input_samples;
}
bool wobble_ok(const WobbleSmootherParams& p) {
  return !p.is_enabled ||
         (nonneg(p.timeout.Value()) && nonneg(p.speed_floor) && fin(p.speed_ceiling) && p.speed_floor <= p.speed_ceiling);
}
bool kalman_ok(const KalmanPredictorParams& p) {
  const auto& c = p.confidence_params;
  return pos(p.process_noise) && pos(p.measurement_noise) && 0 < p.min_stable_iteration && 0 < p.max_time_samples &&
         pos(p.min_catchup_velocity) && fin(p.acceleration_weight) && fin(p.jerk_weight) &&
         pos(p.prediction_interval.Value()) && 0 < c.desired_number_of_samples && pos(c.max_estimation_distance) &&
         nonneg(c.min_travel_speed) && fin(c.max_travel_speed) && c.min_travel_speed <= c.max_travel_speed &&
         pos(c.max_linear_deviation) && 0 <= c.baseline_linearity_confidence && c.baseline_linearity_confidence <= 1;
}
bool prediction_ok(const PredictionParams& p) {
  return !std::holds_alternative<KalmanPredictorParams>(p) || kalman_ok(std::get<KalmanPredictorParams>(p));
}

int a_position(PositionModelerParams p) { return code(ValidatePositionModelerParams(p)); }
int b_position(PositionModelerParams p) { return invalid_unless(position_ok(p)); }
int a_sampling(SamplingParams p) { return code(ValidateSamplingParams(p)); }
int b_sampling(SamplingParams p) { return invalid_unless(sampling_ok(p)); }
int a_stylus(StylusStateModelerParams p) { return code(ValidateStylusStateModelerParams(p)); }
int b_stylus(StylusStateModelerParams p) { return invalid_unless(stylus_ok(p)); }
int a_wobble(WobbleSmootherParams p) { return code(ValidateWobbleSmootherParams(p)); }
int b_wobble(WobbleSmootherParams p) { return invalid_unless(wobble_ok(p)); }
int a_prediction(PredictionParams p) { return code(ValidatePredictionParams(p)); }
int b_prediction(PredictionParams p) { return invalid_unless(prediction_ok(p)); }
// A model is accepted when every part of it is and the parts fit together; the
// modeler takes exactly the parameters that are valid.
int together(const StrokeModelParams& p) {
  const auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  return invalid_unless(!(l.is_enabled && !p.stylus_state_modeler_params.use_stroke_normal_projection) &&
                        ValidateWobbleSmootherParams(p.wobble_smoother_params).ok() &&
                        ValidatePositionModelerParams(p.position_modeler_params).ok() &&
                        ValidateSamplingParams(p.sampling_params).ok() &&
                        ValidateStylusStateModelerParams(p.stylus_state_modeler_params).ok() &&
                        ValidatePredictionParams(p.prediction_params).ok());
}
int a_model(StrokeModelParams p) { return code(ValidateStrokeModelParams(p)); }
int b_model(StrokeModelParams p) { return together(p); }
int a_reset(StrokeModeler m, StrokeModelParams p) { return code(m.Reset(p)); }
int b_reset(StrokeModeler m, StrokeModelParams p) { return code(ValidateStrokeModelParams(p)); }
}  // namespace vp
