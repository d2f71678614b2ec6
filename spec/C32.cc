// One accepted input through the whole pipeline, from any reachable state.
#include "common.h"
//@ * budget=60000 t=60 K=2 ignore=tip_state_buffer_
//@ moving K=3 ignore=^\.(m|out)\b
//@ lifting K=3 ignore=^\.(m|out)\b
namespace vp {
// Blends each tip state with its projection on the raw-input polyline.  The
// weight of a result is the one in force before that result is counted.
void outputs(const std::vector<TipState>& tips, const StylusStateModeler& stylus, LoopContractionMitigationModeler& loop,
             Time before, std::vector<Result>& out) {
  float weight = loop.GetInterpolationValue();
  for (std::size_t i = 0; i < tips.size(); ++i) {
    const TipState& tip = tips[i];
    Result polyline = stylus.Query(tip, GetStrokeNormal(tip, before));
    Result model = polyline;
    model.position = tip.position;
    model.velocity = tip.velocity;
    model.acceleration = tip.acceleration;
    model.time = tip.time;
    Result r = InterpResult(polyline, model, weight);
    out.push_back(r);
    weight = loop.Update(r.velocity, tip.time);
    before = tip.time;
  }
}
StylusState attributes(const Input& in) {
  StylusState s;
  s.pressure = in.pressure;
  s.tilt = in.tilt;
  s.orientation = in.orientation;
  return s;
}

bool finite(const Input& in) {
  return std::isfinite(in.position.x) && std::isfinite(in.position.y) && std::isfinite(in.time.Value());
}
int a_move(StrokeModeler& m, Input in, std::vector<Result>& out) {
  in.event_type = Input::EventType::kMove;
  return static_cast<int>(m.Update(in, out).code());
}
int b_move(StrokeModeler& m, Input in, std::vector<Result>& out) {
  in.event_type = Input::EventType::kMove;
  const StrokeModelParams& p = *m.stroke_model_params_;
  absl::StatusOr<int> n = NumberOfStepsBetweenInputs(m.position_modeler_.CurrentState(), m.last_input_->input, in,
                                                     p.sampling_params, p.position_modeler_params);
  if (!n.ok()) return static_cast<int>(n.status().code());
  Vec2 anchor = m.wobble_smoother_.Update(in.position, in.time);
  m.stylus_state_modeler_.Update(anchor, in.time, attributes(in));
  std::vector<TipState> tips;
  m.position_modeler_.UpdateAlongLinearPath(m.last_input_->corrected_position, m.last_input_->input.time, anchor, in.time,
                                            *n, std::back_inserter(tips));
  if (tips.empty()) tips.push_back(m.position_modeler_.CurrentState());
  if (m.predictor_ != nullptr) m.predictor_->Update(anchor, in.time);
  m.last_input_->input = in;
  m.last_input_->corrected_position = anchor;
  outputs(tips, m.stylus_state_modeler_, m.loop_contraction_mitigation_modeler_, in.time, out);
  return 0;
}
bool pre_move(StrokeModeler& m, Input in, std::vector<Result>& out) {
  return finite(in) && m.stroke_model_params_.has_value() && m.last_input_.has_value() && !(in.time < m.last_input_->input.time) &&
         !(m.last_input_->input.position == in.position && m.last_input_->input.time == in.time);
}
int a_up(StrokeModeler& m, Input in, std::vector<Result>& out) {
  in.event_type = Input::EventType::kUp;
  return static_cast<int>(m.Update(in, out).code());
}
int b_up(StrokeModeler& m, Input in, std::vector<Result>& out) {
  in.event_type = Input::EventType::kUp;
  const StrokeModelParams& p = *m.stroke_model_params_;
  absl::StatusOr<int> n = NumberOfStepsBetweenInputs(m.position_modeler_.CurrentState(), m.last_input_->input, in,
                                                     p.sampling_params, p.position_modeler_params);
  if (!n.ok()) return static_cast<int>(n.status().code());
  std::vector<TipState> tips;
  m.position_modeler_.UpdateAlongLinearPath(m.last_input_->corrected_position, m.last_input_->input.time, in.position,
                                            in.time, *n, std::back_inserter(tips));
  m.position_modeler_.ModelEndOfStroke(
      in.position, Duration(1 / p.sampling_params.min_output_rate),
      std::min(p.sampling_params.end_of_stroke_max_iterations, p.sampling_params.max_outputs_per_call - *n),
      p.sampling_params.end_of_stroke_stopping_distance, std::back_inserter(tips));
  if (tips.empty()) tips.push_back(m.position_modeler_.CurrentState());
  m.stylus_state_modeler_.Update(in.position, in.time, attributes(in));
  outputs(tips, m.stylus_state_modeler_, m.loop_contraction_mitigation_modeler_, m.last_input_->input.time, out);
  m.last_input_ = std::nullopt;
  return 0;
}
bool pre_up(StrokeModeler& m, Input in, std::vector<Result>& out) {
  return finite(in) && m.stroke_model_params_.has_value() && m.last_input_.has_value() && !(in.time < m.last_input_->input.time) &&
         m.last_input_->input.event_type != Input::EventType::kUp;
}
int a_predict(const StrokeModeler& m, std::vector<Result>& out) { return static_cast<int>(m.Predict(out).code()); }
int b_predict(const StrokeModeler& m, std::vector<Result>& out) {
  out.clear();
  if (!m.stroke_model_params_.has_value() || m.predictor_ == nullptr || !m.last_input_.has_value()) return 9;
  std::vector<TipState> tips;
  m.predictor_->ConstructPrediction(m.position_modeler_.CurrentState(), tips);
  LoopContractionMitigationModeler loop = m.loop_contraction_mitigation_modeler_;
  outputs(tips, m.stylus_state_modeler_, loop, m.last_input_->input.time, out);
  return 0;
}
// The tip alone, over a path of two steps.
struct Tip {
  TipState tip;
  int code;
};
bool two_steps(StrokeModeler& m, const Input& in) {
  absl::StatusOr<int> n =
      NumberOfStepsBetweenInputs(m.position_modeler_.CurrentState(), m.last_input_->input, in,
                                 m.stroke_model_params_->sampling_params, m.stroke_model_params_->position_modeler_params);
  return n.ok() && *n == 2;
}
Tip a_moving(StrokeModeler& m, Input in, std::vector<Result>& out) {
  in.event_type = Input::EventType::kMove;
  int code = static_cast<int>(m.Update(in, out).code());
  return {m.position_modeler_.CurrentState(), code};
}
Tip b_moving(StrokeModeler& m, Input in, std::vector<Result>& out) {
  in.event_type = Input::EventType::kMove;
  Vec2 anchor = m.wobble_smoother_.Update(in.position, in.time);
  std::vector<TipState> tips;
  m.position_modeler_.UpdateAlongLinearPath(m.last_input_->corrected_position, m.last_input_->input.time, anchor, in.time, 2,
                                            std::back_inserter(tips));
  return {m.position_modeler_.CurrentState(), 0};
}
bool pre_moving(StrokeModeler& m, Input in, std::vector<Result>& out) {
  return pre_move(m, in, out) && m.stroke_model_params_->sampling_params.max_outputs_per_call > 4 &&
         m.stroke_model_params_->sampling_params.max_estimated_angle_to_traverse_per_input == -1 &&
         m.stroke_model_params_->position_modeler_params.spring_mass_constant > 0 && two_steps(m, in);
}
Tip a_lifting(StrokeModeler& m, Input in, std::vector<Result>& out) {
  in.event_type = Input::EventType::kUp;
  int code = static_cast<int>(m.Update(in, out).code());
  return {m.position_modeler_.CurrentState(), code};
}
Tip b_lifting(StrokeModeler& m, Input in, std::vector<Result>& out) {
  in.event_type = Input::EventType::kUp;
  std::vector<TipState> tips;
  m.position_modeler_.UpdateAlongLinearPath(m.last_input_->corrected_position, m.last_input_->input.time, in.position, in.time, 2,
                                            std::back_inserter(tips));
  return {m.position_modeler_.CurrentState(), 0};
}
bool pre_lifting(StrokeModeler& m, Input in, std::vector<Result>& out) {
  return pre_up(m, in, out) && m.stroke_model_params_->sampling_params.max_outputs_per_call == 2 &&
         m.stroke_model_params_->sampling_params.max_estimated_angle_to_traverse_per_input == -1 &&
         m.stroke_model_params_->position_modeler_params.spring_mass_constant > 0 && two_steps(m, in);
}
}  // namespace vp
