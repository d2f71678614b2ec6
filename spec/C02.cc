// Which inputs are accepted, and the status of those that are not.
#include "common.h"
//@ * ieee=in.* budget=60000 t=90
namespace vp {
int a_accept(StrokeModeler m, Input in, std::vector<Result> out) { return static_cast<int>(m.Update(in, out).code()); }
int b_accept(StrokeModeler m, Input in, std::vector<Result> out) {
  if (!m.stroke_model_params_.has_value()) return 9;
  int e = static_cast<int>(in.event_type);
  if (e < 0 || e > 2) return 3;
  if (!std::isfinite(in.position.x) || !std::isfinite(in.position.y) || !std::isfinite(in.time.Value())) return 3;
  bool down = in.event_type == Input::EventType::kDown;
  if (!m.last_input_.has_value()) return down ? 0 : 9;
  const Input& last = m.last_input_->input;
  if (last.event_type == in.event_type && last.position.x == in.position.x && last.position.y == in.position.y &&
      last.time.Value() == in.time.Value() && last.pressure == in.pressure && last.tilt == in.tilt &&
      last.orientation == in.orientation)
    return 3;
  if (in.time.Value() < last.time.Value()) return 3;
  if (down) return 9;
  absl::StatusOr<int> n =
      NumberOfStepsBetweenInputs(m.position_modeler_.CurrentState(), last, in, m.stroke_model_params_->sampling_params,
                                 m.stroke_model_params_->position_modeler_params);
  return static_cast<int>(n.status().code());
}
}  // namespace vp
