// Wobble smoothing.
#include "common.h"
namespace vp {
// Any history length: one update from an arbitrary internal state.
Vec2 a_any(WobbleSmoother& w, Vec2 p, Time t) { return w.Update(p, t); }
Vec2 b_any(WobbleSmoother& w, Vec2 p, Time t) {
  if (!w.params_.is_enabled) return p;
  double dt = t.Value() - w.state_.samples.back().time.Value();
  double d = dist(w.state_.samples.back().position, p);
  WobbleSmoother::Sample s;
  s.position = p;
  s.weighted_position.x = p.x * dt;
  s.weighted_position.y = p.y * dt;
  s.distance = d;
  s.duration = Duration(dt);
  s.time = t;
  w.state_.samples.push_back(s);
  w.state_.weighted_position_sum.x += s.weighted_position.x;
  w.state_.weighted_position_sum.y += s.weighted_position.y;
  w.state_.distance_sum += d;
  w.state_.duration_sum += dt;
  while (w.state_.samples.front().time.Value() < t.Value() - w.params_.timeout.Value()) {
    w.state_.weighted_position_sum.x -= w.state_.samples.front().weighted_position.x;
    w.state_.weighted_position_sum.y -= w.state_.samples.front().weighted_position.y;
    w.state_.distance_sum -= w.state_.samples.front().distance;
    w.state_.duration_sum -= w.state_.samples.front().duration.Value();
    w.state_.samples.pop_front();
  }
  if (w.state_.duration_sum == 0) return p;
  Vec2 avg;
  avg.x = w.state_.weighted_position_sum.x / w.state_.duration_sum;
  avg.y = w.state_.weighted_position_sum.y / w.state_.duration_sum;
  double speed = w.state_.distance_sum / w.state_.duration_sum;
  return mix(avg, p, ramp(w.params_.speed_floor, w.params_.speed_ceiling, speed));
}
}  // namespace vp
