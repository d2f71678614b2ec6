// Raw inputs kept for the polyline.
#include "common.h"
namespace vp {
void a_keep(StylusStateModeler& m, Vec2 p, Time t, StylusState s) { m.Update(p, t, s); }
void b_keep(StylusStateModeler& m, Vec2 p, Time t, StylusState s) {
  if (s.pressure < 0 || std::isnan(s.pressure)) m.state_.received_unknown_pressure = true;
  if (s.tilt < 0 || std::isnan(s.tilt)) m.state_.received_unknown_tilt = true;
  if (s.orientation < 0 || std::isnan(s.orientation)) m.state_.received_unknown_orientation = true;
  std::deque<Result>& q = m.state_.raw_input_and_stylus_states;
  if (!m.params_.use_stroke_normal_projection && m.state_.received_unknown_pressure &&
      m.state_.received_unknown_tilt && m.state_.received_unknown_orientation) {
    q.clear();
    return;
  }
  Result r;
  r.position = p;
  r.velocity = {0, 0};
  r.acceleration = {0, 0};
  r.time = t;
  r.pressure = s.pressure;
  r.tilt = s.tilt;
  r.orientation = s.orientation;
  if (!q.empty() && !(t == q.back().time)) {
    double dt = t.Value() - q.back().time.Value();
    r.velocity.x = (p.x - q.back().position.x) / dt;
    r.velocity.y = (p.y - q.back().position.y) / dt;
    r.acceleration.x = (r.velocity.x - q.back().velocity.x) / dt;
    r.acceleration.y = (r.velocity.y - q.back().velocity.y) / dt;
  }
  q.push_back(r);
  const StylusStateModelerParams& prm = m.params_;
  while (prm.use_stroke_normal_projection
             ? static_cast<int>(q.size()) > prm.min_input_samples &&
                   q.back().time.Value() - q[1].time.Value() > prm.min_sample_duration.Value()
             : static_cast<int>(q.size()) > prm.max_input_samples) {
    q.pop_front();
  }
}
bool pre_keep(StylusStateModeler& m, Vec2 p, Time t, StylusState s) {
  return m.params_.use_stroke_normal_projection
             ? m.params_.min_input_samples > 0 && m.params_.min_sample_duration > Duration(0)
             : m.params_.max_input_samples > 0;
}
}  // namespace vp
