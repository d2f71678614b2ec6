// How far a Kalman prediction reaches.
#include "common.h"
//@ * budget=20000 t=60
namespace vp {
int a_reach(const KalmanPredictor& p, KalmanPredictor::State s) { return p.NumberOfPointsToPredict(s); }
int b_reach(const KalmanPredictor& p, KalmanPredictor::State s) {
  const auto& c = p.predictor_params_.confidence_params;
  double t = p.predictor_params_.prediction_interval.Value();
  double full = t * p.sampling_params_.min_output_rate;
  double count = std::min(1.0, static_cast<double>(p.x_predictor_.NumIterations()) / c.desired_number_of_samples);
  double close = 1 - ramp(0, c.max_estimation_distance, dist(*p.last_position_received_, s.position));
  Vec2 straight;
  straight.x = s.position.x + s.velocity.x * t;
  straight.y = s.position.y + s.velocity.y * t;
  Vec2 end;
  end.x = straight.x + s.acceleration.x * t * t / 2 + s.jerk.x * t * t * t / 6;
  end.y = straight.y + s.acceleration.y * t * t / 2 + s.jerk.y * t * t * t / 6;
  double travel = ramp(c.min_travel_speed, c.max_travel_speed, dist(s.position, end) / t);
  double bend = ramp(0, c.max_linear_deviation, dist(end, straight));
  double linear = mixd(c.baseline_linearity_confidence, 1, 1 - bend);
  double n = std::max(0.0, std::ceil(full * (count * close * travel * linear)));
  return static_cast<int>(std::min(n, static_cast<double>(p.sampling_params_.max_outputs_per_call)));
}
bool pre_reach(const KalmanPredictor& p, KalmanPredictor::State s) {
  const auto& c = p.predictor_params_.confidence_params;
  return p.last_position_received_.has_value() && c.max_estimation_distance > 0 && c.max_linear_deviation > 0 &&
         p.predictor_params_.prediction_interval.Value() > 0 && p.sampling_params_.min_output_rate > 0 &&
         c.desired_number_of_samples > 0;
}
// Nothing is predicted before there is an estimate.
void a_early(const KalmanPredictor& p, TipState tip, std::vector<TipState>& out) { p.ConstructPrediction(tip, out); }
void b_early(const KalmanPredictor& p, TipState tip, std::vector<TipState>& out) { out.clear(); }
bool pre_early(const KalmanPredictor& p, TipState tip, std::vector<TipState>& out) {
  return !p.GetEstimatedState().has_value();
}
}  // namespace vp
