// Kalman prediction: connector and extrapolation.
#include "common.h"
//@ * budget=20000 t=60
namespace vp {
using State = KalmanPredictor::State;
// Cubic from (p0, v0) at 0 to (p1, v1) at d, Hermite form.
void connect(const TipState& tip, const State& est, const KalmanPredictorParams& k, Duration step, int limit,
             std::vector<TipState>& out) {
  double away = std::min<double>(dist(tip.position, est.position), std::numeric_limits<float>::max());
  double speed = std::max<double>(std::max(len(tip.velocity), len(est.velocity)), k.min_catchup_velocity);
  double wanted = std::max(std::ceil(away / speed / step.Value()), 1.0);
  int n = static_cast<int>(std::min(wanted, static_cast<double>(limit)));
  double d = n * step.Value();
  for (int i = 1; i <= n; ++i) {
    double t = static_cast<double>(i) / n;
    TipState s;
    double h00 = 2 * t * t * t - 3 * t * t + 1, h10 = t * t * t - 2 * t * t + t;
    double h01 = 3 * t * t - 2 * t * t * t, h11 = t * t * t - t * t;
    s.position.x = h00 * tip.position.x + h10 * d * tip.velocity.x + h01 * est.position.x + h11 * d * est.velocity.x;
    s.position.y = h00 * tip.position.y + h10 * d * tip.velocity.y + h01 * est.position.y + h11 * d * est.velocity.y;
    double e00 = 6 * t * t - 6 * t, e10 = 3 * t * t - 4 * t + 1, e01 = 6 * t - 6 * t * t, e11 = 3 * t * t - 2 * t;
    s.velocity.x = (e00 * tip.position.x + e01 * est.position.x) / d + e10 * tip.velocity.x + e11 * est.velocity.x;
    s.velocity.y = (e00 * tip.position.y + e01 * est.position.y) / d + e10 * tip.velocity.y + e11 * est.velocity.y;
    double g00 = 12 * t - 6, g10 = 6 * t - 4, g01 = 6 - 12 * t, g11 = 6 * t - 2;
    s.acceleration.x =
        (g00 * tip.position.x + g01 * est.position.x) / (d * d) + (g10 * tip.velocity.x + g11 * est.velocity.x) / d;
    s.acceleration.y =
        (g00 * tip.position.y + g01 * est.position.y) / (d * d) + (g10 * tip.velocity.y + g11 * est.velocity.y) / d;
    s.time = Time(tip.time.Value() + d * t);
    out.push_back(s);
  }
}
State after(const State& s, double t) {
  State r;
  r.position.x = s.position.x + s.velocity.x * t + s.acceleration.x * t * t / 2 + s.jerk.x * t * t * t / 6;
  r.position.y = s.position.y + s.velocity.y * t + s.acceleration.y * t * t / 2 + s.jerk.y * t * t * t / 6;
  r.velocity.x = s.velocity.x + s.acceleration.x * t + s.jerk.x * t * t / 2;
  r.velocity.y = s.velocity.y + s.acceleration.y * t + s.jerk.y * t * t / 2;
  r.acceleration.x = s.acceleration.x + s.jerk.x * t;
  r.acceleration.y = s.acceleration.y + s.jerk.y * t;
  r.jerk = s.jerk;
  return r;
}
void extend(State s, Time t, Duration step, int n, std::vector<TipState>& out) {
  for (int i = 0; i < n; ++i) {
    s = after(s, step.Value());
    t = Time(t.Value() + step.Value());
    TipState r;
    r.position = s.position;
    r.velocity = s.velocity;
    r.acceleration = s.acceleration;
    r.time = t;
    out.push_back(r);
  }
}
void a_connect(TipState tip, State est, KalmanPredictorParams k, Duration step, int limit, std::vector<TipState>& out) {
  KalmanPredictor::ConstructCubicConnector(tip, est, k, step, limit, &out);
}
void b_connect(TipState tip, State est, KalmanPredictorParams k, Duration step, int limit, std::vector<TipState>& out) {
  connect(tip, est, k, step, limit, out);
}
bool pre_connect(TipState tip, State est, KalmanPredictorParams k, Duration step, int limit, std::vector<TipState>& out) {
  return limit > 0 && step.Value() > 0 && k.min_catchup_velocity > 0;
}
void a_extend(State est, KalmanPredictorParams k, Time t, Duration step, int n, std::vector<TipState>& out) {
  KalmanPredictor::ConstructCubicPrediction(est, k, t, step, n, &out);
}
void b_extend(State est, KalmanPredictorParams k, Time t, Duration step, int n, std::vector<TipState>& out) {
  extend(est, t, step, n, out);
}
// Both parts together.
void a_whole(const KalmanPredictor& p, TipState tip, std::vector<TipState>& out) { p.ConstructPrediction(tip, out); }
void b_whole(const KalmanPredictor& p, TipState tip, std::vector<TipState>& out) {
  out.clear();
  std::optional<State> est = p.GetEstimatedState();
  if (!est.has_value() || !p.last_position_received_.has_value()) return;
  Duration step(1 / p.sampling_params_.min_output_rate);
  int limit = p.sampling_params_.max_outputs_per_call;
  connect(tip, *est, p.predictor_params_, step, limit, out);
  Time t = out.empty() ? tip.time : out.back().time;
  extend(*est, t, step, std::min(p.NumberOfPointsToPredict(*est), limit - static_cast<int>(out.size())), out);
}
bool pre_whole(const KalmanPredictor& p, TipState tip, std::vector<TipState>& out) {
  return p.sampling_params_.max_outputs_per_call > 0 && p.sampling_params_.min_output_rate > 0 &&
         p.predictor_params_.min_catchup_velocity > 0;
}
}  // namespace vp
