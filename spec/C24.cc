// The estimate of the Kalman predictor in units of time.
#include "common.h"
//@ * budget=20000 t=60
namespace vp {
std::optional<KalmanPredictor::State> a_estimate(const KalmanPredictor& p) { return p.GetEstimatedState(); }
std::optional<KalmanPredictor::State> b_estimate(const KalmanPredictor& p) {
  const AxisPredictor& x = p.x_predictor_;
  const AxisPredictor& y = p.y_predictor_;
  const std::deque<Time>& t = p.sample_times_;
  if (!x.Stable() || !y.Stable() || t.size() == 0) return std::nullopt;
  double span = t[t.size() - 1].Value() - t[0].Value();
  if (span <= 0) return std::nullopt;
  double dt = span / t.size();
  double wa = p.predictor_params_.acceleration_weight, wj = p.predictor_params_.jerk_weight;
  KalmanPredictor::State s;
  s.position.x = x.GetPosition();
  s.position.y = y.GetPosition();
  s.velocity.x = x.GetVelocity() / dt;
  s.velocity.y = y.GetVelocity() / dt;
  s.acceleration.x = wa * x.GetAcceleration() / (dt * dt);
  s.acceleration.y = wa * y.GetAcceleration() / (dt * dt);
  s.jerk.x = wj * x.GetJerk() / (dt * dt * dt);
  s.jerk.y = wj * y.GetJerk() / (dt * dt * dt);
  return s;
}
// What an input adds.
void a_input(KalmanPredictor& p, Vec2 at, Time t) { p.Update(at, t); }
void b_input(KalmanPredictor& p, Vec2 at, Time t) {
  p.x_predictor_.Update(at.x);
  p.y_predictor_.Update(at.y);
  p.last_position_received_ = at;
  p.sample_times_.push_back(t);
  if (static_cast<int>(p.sample_times_.size()) > p.predictor_params_.max_time_samples) p.sample_times_.pop_front();
}
bool pre_input(KalmanPredictor& p, Vec2 at, Time t) { return p.predictor_params_.max_time_samples > 0; }
void a_reset(KalmanPredictor& p) { p.Reset(); }
void b_reset(KalmanPredictor& p) {
  p.x_predictor_.Reset();
  p.y_predictor_.Reset();
  p.sample_times_.clear();
  p.last_position_received_.reset();
}
// From the beginning, through the interface only.
std::optional<KalmanPredictor::State> a_start(KalmanPredictorParams k, SamplingParams s, Vec2 p1, Vec2 p2, Vec2 p3, Time t1,
                                              Time t2, Time t3) {
  KalmanPredictor p(k, s);
  p.Reset();
  p.Update(p1, t1);
  p.Update(p2, t2);
  p.Update(p3, t3);
  return p.GetEstimatedState();
}
std::optional<KalmanPredictor::State> b_start(KalmanPredictorParams k, SamplingParams s, Vec2 p1, Vec2 p2, Vec2 p3, Time t1,
                                              Time t2, Time t3) {
  AxisPredictor x(k.process_noise, k.measurement_noise, k.min_stable_iteration);
  AxisPredictor y(k.process_noise, k.measurement_noise, k.min_stable_iteration);
  x.Update(p1.x);
  y.Update(p1.y);
  x.Update(p2.x);
  y.Update(p2.y);
  x.Update(p3.x);
  y.Update(p3.y);
  if (k.min_stable_iteration > 3) return std::nullopt;
  // The oldest of the remembered times.
  double first = k.max_time_samples >= 3 ? t1.Value() : k.max_time_samples == 2 ? t2.Value() : t3.Value();
  int n = k.max_time_samples < 3 ? k.max_time_samples : 3;
  if (t3.Value() - first <= 0) return std::nullopt;
  double dt = (t3.Value() - first) / n;
  KalmanPredictor::State r;
  r.position.x = x.GetPosition();
  r.position.y = y.GetPosition();
  r.velocity.x = x.GetVelocity() / dt;
  r.velocity.y = y.GetVelocity() / dt;
  r.acceleration.x = k.acceleration_weight * x.GetAcceleration() / (dt * dt);
  r.acceleration.y = k.acceleration_weight * y.GetAcceleration() / (dt * dt);
  r.jerk.x = k.jerk_weight * x.GetJerk() / (dt * dt * dt);
  r.jerk.y = k.jerk_weight * y.GetJerk() / (dt * dt * dt);
  return r;
}
bool pre_start(KalmanPredictorParams k, SamplingParams s, Vec2 p1, Vec2 p2, Vec2 p3, Time t1, Time t2, Time t3) {
  return k.max_time_samples > 0 && k.min_stable_iteration > 0;
}
}  // namespace vp
