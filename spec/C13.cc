// An accepted down event.
#include "common.h"
//@ * budget=60000 t=60
//@ known ieee=in.pressure,in.tilt,in.orientation
namespace vp {
bool accepted(const StrokeModeler& m, Input in) {
  return m.stroke_model_params_.has_value() && !m.last_input_.has_value() && std::isfinite(in.position.x) &&
         std::isfinite(in.position.y) && std::isfinite(in.time.Value());
}
// The results appended.
int a_result(StrokeModeler m, Input in, std::vector<Result>& out) {
  in.event_type = Input::EventType::kDown;
  return static_cast<int>(m.Update(in, out).code());
}
int b_result(StrokeModeler m, Input in, std::vector<Result>& out) {
  Result r;
  r.position = in.position;
  r.velocity = {0, 0};
  r.acceleration = {0, 0};
  r.time = in.time;
  r.pressure = in.pressure;
  r.tilt = in.tilt;
  r.orientation = in.orientation;
  out.push_back(r);
  return 0;
}
bool pre_result(StrokeModeler m, Input in, std::vector<Result>& out) { return accepted(m, in); }
// The tip and the anchors the next input starts from.
struct After {
  TipState tip;
  Input input;
  Vec2 anchor;
  bool has;
};
After a_rest(StrokeModeler m, Input in, std::vector<Result> out) {
  in.event_type = Input::EventType::kDown;
  m.Update(in, out).IgnoreError();
  return {m.position_modeler_.CurrentState(), m.last_input_->input, m.last_input_->corrected_position, m.last_input_.has_value()};
}
After b_rest(StrokeModeler m, Input in, std::vector<Result> out) {
  in.event_type = Input::EventType::kDown;
  TipState t;
  t.position = in.position;
  t.velocity = {0, 0};
  t.acceleration = {0, 0};
  t.time = in.time;
  return {t, in, in.position, true};
}
bool pre_rest(StrokeModeler m, Input in, std::vector<Result> out) { return accepted(m, in); }
// Every stage starts from the input.
struct Stages {
  WobbleSmoother wobble;
  StylusStateModeler stylus;
  PositionModelerParams position;
  LoopContractionMitigationModeler loop;
};
Stages a_stages(StrokeModeler m, Input in, std::vector<Result> out) {
  in.event_type = Input::EventType::kDown;
  m.Update(in, out).IgnoreError();
  return {m.wobble_smoother_, m.stylus_state_modeler_, m.position_modeler_.params_, m.loop_contraction_mitigation_modeler_};
}
Stages b_stages(StrokeModeler m, Input in, std::vector<Result> out) {
  const StrokeModelParams& p = *m.stroke_model_params_;
  Stages s{m.wobble_smoother_, m.stylus_state_modeler_, p.position_modeler_params, m.loop_contraction_mitigation_modeler_};
  s.wobble.Reset(p.wobble_smoother_params, in.position, in.time);
  s.stylus.Reset(p.stylus_state_modeler_params);
  StylusState a;
  a.pressure = in.pressure;
  a.tilt = in.tilt;
  a.orientation = in.orientation;
  s.stylus.Update(in.position, in.time, a);
  s.loop.Reset(p.position_modeler_params.loop_contraction_mitigation_params);
  return s;
}
bool pre_stages(StrokeModeler m, Input in, std::vector<Result> out) { return accepted(m, in); }
}  // namespace vp
