// The mean time between inputs as README algorithm 6 defines it: n inputs are n - 1 intervals apart.
#include "common.h"
//@ * budget=20000 t=60
namespace vp {
std::optional<Vec2> a_mean(const KalmanPredictor& p) {
  auto s = p.GetEstimatedState();
  if (!s) return std::nullopt;
  return s->velocity;
}
std::optional<Vec2> b_mean(const KalmanPredictor& p) {
  auto s = p.GetEstimatedState();
  if (!s) return std::nullopt;
  double span = p.sample_times_[p.sample_times_.size() - 1].Value() - p.sample_times_[0].Value();
  double dt = span / (p.sample_times_.size() - 1);
  Vec2 v;
  v.x = p.x_predictor_.GetVelocity() / dt;
  v.y = p.y_predictor_.GetVelocity() / dt;
  return v;
}
bool pre_mean(const KalmanPredictor& p) { return p.sample_times_.size() >= 2; }
}  // namespace vp
