// Loop-contraction mitigation weight.
#include "common.h"
namespace vp {
double weight(const PositionModelerParams::LoopContractionMitigationParameters& p, double speed) {
  double k = p.speed_upper_bound == p.speed_lower_bound
                 ? 0
                 : clamp01((speed - p.speed_lower_bound) / (p.speed_upper_bound - p.speed_lower_bound));
  return mixd(p.interpolation_strength_at_speed_lower_bound, p.interpolation_strength_at_speed_upper_bound, k);
}
float a_value(LoopContractionMitigationModeler& m) { return m.GetInterpolationValue(); }
float b_value(LoopContractionMitigationModeler& m) {
  if (!m.params_.is_enabled || m.speed_samples_.empty()) return 1;
  double sum = 0;
  for (std::size_t i = 0; i < m.speed_samples_.size(); ++i) sum += m.speed_samples_[i].speed;
  return weight(m.params_, sum / m.speed_samples_.size());
}
float a_update(LoopContractionMitigationModeler& m, Vec2 v, Time t) { return m.Update(v, t); }
float b_update(LoopContractionMitigationModeler& m, Vec2 v, Time t) {
  if (!m.params_.is_enabled) return 1;
  m.speed_samples_.push_back({static_cast<float>(len(v)), t});
  while (static_cast<int>(m.speed_samples_.size()) > m.params_.min_discrete_speed_samples &&
         t.Value() - m.speed_samples_[1].time.Value() >= m.params_.min_speed_sampling_window.Value()) {
    m.speed_samples_.pop_front();
  }
  return b_value(m);
}
bool pre_update(LoopContractionMitigationModeler& m, Vec2 v, Time t) { return m.params_.min_discrete_speed_samples >= 1; }
}  // namespace vp
