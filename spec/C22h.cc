// Loop-contraction mitigation weight over whole histories.
#include "common.h"
namespace vp {
using LP = PositionModelerParams::LoopContractionMitigationParameters;
double weighth(const LP& p, double speed) {
  double k = p.speed_upper_bound == p.speed_lower_bound
                 ? 0
                 : clamp01((speed - p.speed_lower_bound) / (p.speed_upper_bound - p.speed_lower_bound));
  return mixd(p.interpolation_strength_at_speed_lower_bound, p.interpolation_strength_at_speed_upper_bound, k);
}
float a_none(LoopContractionMitigationModeler m, LP p) {
  m.Reset(p);
  return m.GetInterpolationValue();
}
float b_none(LoopContractionMitigationModeler m, LP p) { return 1; }
float a_one(LoopContractionMitigationModeler m, LP p, Vec2 v, Time t) {
  m.Reset(p);
  return m.Update(v, t);
}
float b_one(LoopContractionMitigationModeler m, LP p, Vec2 v, Time t) { return p.is_enabled ? weighth(p, len(v)) : 1; }
bool pre_one(LoopContractionMitigationModeler m, LP p, Vec2 v, Time t) {
  return p.min_discrete_speed_samples >= 1 && p.min_speed_sampling_window > Duration(0);
}
float a_two(LoopContractionMitigationModeler m, LP p, Vec2 v, Time t, Vec2 w, Time u) {
  m.Reset(p);
  m.Update(v, t);
  return m.Update(w, u);
}
float b_two(LoopContractionMitigationModeler m, LP p, Vec2 v, Time t, Vec2 w, Time u) {
  if (!p.is_enabled) return 1;
  return weighth(p, (len(v) + len(w)) / 2);
}
bool pre_two(LoopContractionMitigationModeler m, LP p, Vec2 v, Time t, Vec2 w, Time u) {
  return p.min_discrete_speed_samples >= 1 && p.min_speed_sampling_window > Duration(0) && t <= u;
}
// The shortest run of the newest samples with the minimum count and duration.
float a_three(LoopContractionMitigationModeler m, LP p, Vec2 v, Time t, Vec2 w, Time u, Vec2 x, Time s) {
  m.Reset(p);
  m.Update(v, t);
  m.Update(w, u);
  return m.Update(x, s);
}
float b_three(LoopContractionMitigationModeler m, LP p, Vec2 v, Time t, Vec2 w, Time u, Vec2 x, Time s) {
  if (!p.is_enabled) return 1;
  if (p.min_discrete_speed_samples <= 2 && s.Value() - u.Value() >= p.min_speed_sampling_window.Value())
    return weighth(p, (len(w) + len(x)) / 2);
  return weighth(p, (len(v) + len(w) + len(x)) / 3);
}
bool pre_three(LoopContractionMitigationModeler m, LP p, Vec2 v, Time t, Vec2 w, Time u, Vec2 x, Time s) {
  return p.min_discrete_speed_samples >= 1 && p.min_speed_sampling_window > Duration(0) && t <= u && u <= s;
}
}  // namespace vp
