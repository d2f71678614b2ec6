// The same calls with other stylus attributes.
#include "common.h"
//@ * budget=60000 t=60
//@ moving K=3 ignore=^\.(m|out)\b
//@ anchor K=3 ignore=^\.(m|out)\b
namespace vp {
struct Geometry {
  Vec2 position, velocity, acceleration;
  double time;
};
Geometry geometry(const Result& r) { return {r.position, r.velocity, r.acceleration, r.time.Value()}; }
Result two(const StylusStateModelerParams& params, Vec2 p0, Time t0, StylusState s0, Vec2 p1, Time t1, StylusState s1, TipState tip,
           Vec2 normal) {
  StylusStateModeler m;
  m.Reset(params);
  m.Update(p0, t0, s0);
  m.Update(p1, t1, s1);
  return m.Query(tip, normal);
}
StylusState pick(StylusState s, float pressure, float tilt, float orientation) {
  s.pressure = pressure;
  s.tilt = tilt;
  s.orientation = orientation;
  return s;
}
// With projection along the normal the polyline is needed for the geometry.
Geometry a_polyline(StylusStateModelerParams params, Vec2 p0, Time t0, StylusState s0, StylusState u0, Vec2 p1, Time t1, StylusState s1,
                    StylusState u1, TipState tip, Vec2 normal) {
  return geometry(two(params, p0, t0, s0, p1, t1, s1, tip, normal));
}
Geometry b_polyline(StylusStateModelerParams params, Vec2 p0, Time t0, StylusState s0, StylusState u0, Vec2 p1, Time t1, StylusState s1,
                    StylusState u1, TipState tip, Vec2 normal) {
  return geometry(two(params, p0, t0, u0, p1, t1, u1, tip, normal));
}
bool pre_polyline(StylusStateModelerParams params, Vec2 p0, Time t0, StylusState s0, StylusState u0, Vec2 p1, Time t1, StylusState s1,
                  StylusState u1, TipState tip, Vec2 normal) {
  return params.use_stroke_normal_projection && params.min_input_samples > 1;
}
float a_pressure(StylusStateModelerParams params, Vec2 p0, Time t0, StylusState s0, StylusState u0, Vec2 p1, Time t1, StylusState s1,
                 StylusState u1, TipState tip, Vec2 normal) {
  return two(params, p0, t0, s0, p1, t1, s1, tip, normal).pressure;
}
float b_pressure(StylusStateModelerParams params, Vec2 p0, Time t0, StylusState s0, StylusState u0, Vec2 p1, Time t1, StylusState s1,
                 StylusState u1, TipState tip, Vec2 normal) {
  return two(params, p0, t0, pick(u0, s0.pressure, u0.tilt, u0.orientation), p1, t1, pick(u1, s1.pressure, u1.tilt, u1.orientation), tip, normal)
      .pressure;
}
bool pre_pressure(StylusStateModelerParams params, Vec2 p0, Time t0, StylusState s0, StylusState u0, Vec2 p1, Time t1, StylusState s1,
                  StylusState u1, TipState tip, Vec2 normal) {
  return params.min_input_samples > 1 && params.max_input_samples > 1 && p0.x == p1.x && p0.y == p1.y;
}
float a_tilt(StylusStateModelerParams params, Vec2 p0, Time t0, StylusState s0, StylusState u0, Vec2 p1, Time t1, StylusState s1,
             StylusState u1, TipState tip, Vec2 normal) {
  return two(params, p0, t0, s0, p1, t1, s1, tip, normal).tilt;
}
float b_tilt(StylusStateModelerParams params, Vec2 p0, Time t0, StylusState s0, StylusState u0, Vec2 p1, Time t1, StylusState s1,
             StylusState u1, TipState tip, Vec2 normal) {
  return two(params, p0, t0, pick(u0, u0.pressure, s0.tilt, u0.orientation), p1, t1, pick(u1, u1.pressure, s1.tilt, u1.orientation), tip, normal)
      .tilt;
}
bool pre_tilt(StylusStateModelerParams params, Vec2 p0, Time t0, StylusState s0, StylusState u0, Vec2 p1, Time t1, StylusState s1,
              StylusState u1, TipState tip, Vec2 normal) {
  return params.min_input_samples > 1 && params.max_input_samples > 1 && p0.x == p1.x && p0.y == p1.y;
}
// One sample is enough for the orientation: the angle arithmetic is C19's.
float one(const StylusStateModelerParams& params, Vec2 p0, Time t0, StylusState s0, TipState tip, Vec2 normal) {
  StylusStateModeler m;
  m.Reset(params);
  m.Update(p0, t0, s0);
  return m.Query(tip, normal).orientation;
}
float a_orientation(StylusStateModelerParams params, Vec2 p0, Time t0, StylusState s0, StylusState u0, TipState tip, Vec2 normal) {
  return one(params, p0, t0, s0, tip, normal);
}
float b_orientation(StylusStateModelerParams params, Vec2 p0, Time t0, StylusState s0, StylusState u0, TipState tip, Vec2 normal) {
  return one(params, p0, t0, pick(u0, u0.pressure, u0.tilt, s0.orientation), tip, normal);
}
// The tip over a path of two steps, and the smoothed position.
Input other(Input in, float pressure, float tilt, float orientation) {
  in.pressure = pressure;
  in.tilt = tilt;
  in.orientation = orientation;
  return in;
}
bool accepted(StrokeModeler& m, const Input& in) {
  if (!m.stroke_model_params_.has_value() || !m.last_input_.has_value()) return false;
  if (!(std::isfinite(in.position.x) && std::isfinite(in.position.y) && std::isfinite(in.time.Value()))) return false;
  if (!(m.last_input_->input.time < in.time) || m.last_input_->input.event_type == Input::EventType::kUp) return false;
  absl::StatusOr<int> n =
      NumberOfStepsBetweenInputs(m.position_modeler_.CurrentState(), m.last_input_->input, in,
                                 m.stroke_model_params_->sampling_params, m.stroke_model_params_->position_modeler_params);
  return n.ok() && *n == 2 && m.stroke_model_params_->sampling_params.max_outputs_per_call > 4 &&
         m.stroke_model_params_->sampling_params.max_estimated_angle_to_traverse_per_input == -1 &&
         m.stroke_model_params_->position_modeler_params.spring_mass_constant > 0;
}
TipState a_moving(StrokeModeler& m, Input in, float p, float t, float o, std::vector<Result>& out) {
  in.event_type = Input::EventType::kMove;
  (void)m.Update(in, out);
  return m.position_modeler_.CurrentState();
}
TipState b_moving(StrokeModeler& m, Input in, float p, float t, float o, std::vector<Result>& out) {
  in.event_type = Input::EventType::kMove;
  (void)m.Update(other(in, p, t, o), out);
  return m.position_modeler_.CurrentState();
}
bool pre_moving(StrokeModeler& m, Input in, float p, float t, float o, std::vector<Result>& out) { return accepted(m, in); }
Vec2 a_anchor(StrokeModeler& m, Input in, float p, float t, float o, std::vector<Result>& out) {
  in.event_type = Input::EventType::kMove;
  (void)m.Update(in, out);
  return m.last_input_->corrected_position;
}
Vec2 b_anchor(StrokeModeler& m, Input in, float p, float t, float o, std::vector<Result>& out) {
  in.event_type = Input::EventType::kMove;
  (void)m.Update(other(in, p, t, o), out);
  return m.last_input_->corrected_position;
}
bool pre_anchor(StrokeModeler& m, Input in, float p, float t, float o, std::vector<Result>& out) { return accepted(m, in); }
}  // namespace vp
