// Upsampling between consecutive inputs.
#include "common.h"
namespace vp {
struct Steps { int code; int n; };
Steps a_steps(TipState tip, Input from, Input to, SamplingParams s, PositionModelerParams p) {
  absl::StatusOr<int> n = NumberOfStepsBetweenInputs(tip, from, to, s, p);
  Steps r{static_cast<int>(n.status().code()), 0};
  if (n.ok()) r.n = *n;
  return r;
}
Steps b_steps(TipState tip, Input from, Input to, SamplingParams s, PositionModelerParams p) {
  double dt = to.time.Value() - from.time.Value();
  double n = std::min(std::ceil(dt * s.min_output_rate), 2147483647.0);
  Vec2 v1;
  v1.x = tip.velocity.x + (to.position.x - tip.position.x) / p.spring_mass_constant * dt;
  v1.y = tip.velocity.y + (to.position.y - tip.position.y) / p.spring_mass_constant * dt;
  absl::StatusOr<float> angle = tip.velocity.AbsoluteAngleTo(v1);
  if (!angle.ok()) return Steps{3, 0};
  if (s.max_estimated_angle_to_traverse_per_input > 0) {
    double k = std::min(std::ceil(*angle / s.max_estimated_angle_to_traverse_per_input), 2147483647.0);
    if (k > n) n = k;
  }
  if (n > s.max_outputs_per_call) return Steps{3, 0};
  return Steps{0, static_cast<int>(n)};
}
// Angle between two directions.
struct Angle { int code; float v; };
Angle a_angle(Vec2 u, Vec2 w) {
  absl::StatusOr<float> a = u.AbsoluteAngleTo(w);
  Angle r{static_cast<int>(a.status().code()), 0};
  if (a.ok()) r.v = *a;
  return r;
}
Angle b_angle(Vec2 u, Vec2 w) {
  if (!std::isfinite(u.x) || !std::isfinite(u.y) || !std::isfinite(w.x) || !std::isfinite(w.y)) return Angle{3, 0};
  double m = len(u), k = len(w);
  if (m == 0 || k == 0) return Angle{0, 0};
  double c = (u.x / m) * (w.x / k) + (u.y / m) * (w.y / k);
  return Angle{0, static_cast<float>(std::acos(c < -1 ? -1 : c > 1 ? 1 : c))};
}
// Evenly spaced anchors in space and time, ending exactly at the new input.
void a_path(PositionModeler& m, Vec2 p0, Time t0, Vec2 p1, Time t1, int n, std::vector<TipState>& out) {
  m.UpdateAlongLinearPath(p0, t0, p1, t1, n, std::back_inserter(out));
}
void b_path(PositionModeler& m, Vec2 p0, Time t0, Vec2 p1, Time t1, int n, std::vector<TipState>& out) {
  for (int i = 1; i <= n; ++i) {
    double f = clamp01(static_cast<double>(i) / n);
    out.push_back(m.Update(mix(p0, p1, f), Time(mixd(t0.Value(), t1.Value(), f))));
  }
}
}  // namespace vp
