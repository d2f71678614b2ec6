// Attributes that were missing once in a stroke.
#include "common.h"
//@ * budget=60000 t=60
//@ flags ieee=s.*
//@ down ieee=in.*
namespace vp {
struct Flags {
  bool pressure, tilt, orientation;
};
bool missing(float v) { return v < 0 || std::isnan(v); }
Flags of(const StylusStateModeler& m) {
  return {m.state_.received_unknown_pressure, m.state_.received_unknown_tilt, m.state_.received_unknown_orientation};
}
Flags a_flags(StylusStateModeler m, Vec2 p, Time t, StylusState s) {
  m.Update(p, t, s);
  return of(m);
}
Flags b_flags(StylusStateModeler m, Vec2 p, Time t, StylusState s) {
  Flags f = of(m);
  return {f.pressure || missing(s.pressure), f.tilt || missing(s.tilt), f.orientation || missing(s.orientation)};
}
// A new stroke starts afresh.
Flags a_down(StrokeModeler m, Input in, std::vector<Result> out) {
  in.event_type = Input::EventType::kDown;
  m.Update(in, out).IgnoreError();
  return of(m.stylus_state_modeler_);
}
Flags b_down(StrokeModeler m, Input in, std::vector<Result> out) {
  return {missing(in.pressure), missing(in.tilt), missing(in.orientation)};
}
bool pre_down(StrokeModeler m, Input in, std::vector<Result> out) {
  return m.stroke_model_params_.has_value() && !m.last_input_.has_value() && std::isfinite(in.position.x) &&
         std::isfinite(in.position.y) && std::isfinite(in.time.Value());
}
// Exactly the missing attributes are stripped, whatever the others are.
Result a_query(const StylusStateModeler& m, const TipState& tip, std::optional<Vec2> normal) { return m.Query(tip, normal); }
Result b_query(const StylusStateModeler& m, const TipState& tip, std::optional<Vec2> normal) {
  StylusStateModeler all = m;
  all.state_.received_unknown_pressure = false;
  all.state_.received_unknown_tilt = false;
  all.state_.received_unknown_orientation = false;
  Result r = all.Query(tip, normal);
  if (m.state_.received_unknown_pressure) r.pressure = -1;
  if (m.state_.received_unknown_tilt) r.tilt = -1;
  if (m.state_.received_unknown_orientation) r.orientation = -1;
  return r;
}
// Blending a result with one that shares its attributes keeps them.
struct Attr {
  float pressure, tilt;
  bool orientation_missing;
};
Attr a_blend(Result a, Result b, float w) {
  b.pressure = a.pressure;
  b.tilt = a.tilt;
  b.orientation = a.orientation;
  Result r = InterpResult(a, b, w);
  return {r.pressure, r.tilt, r.orientation == -1};
}
Attr b_blend(Result a, Result b, float w) { return {a.pressure < 0 ? -1 : a.pressure, a.tilt < 0 ? -1 : a.tilt, a.orientation < 0}; }
bool pre_blend(Result a, Result b, float w) { return a.orientation < 0; }
}  // namespace vp
