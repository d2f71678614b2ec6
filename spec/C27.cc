// Stroke-end prediction.
#include "common.h"
namespace vp {
void a_predict(PositionModelerParams pp, SamplingParams sp, Vec2 p1, Time t1, Vec2 p2, Time t2, TipState tip,
               std::vector<TipState>& out) {
  StrokeEndPredictor p(pp, sp);
  p.Reset();
  p.Update(p1, t1);
  p.Update(p2, t2);
  p.ConstructPrediction(tip, out);
}
void b_predict(PositionModelerParams pp, SamplingParams sp, Vec2 p1, Time t1, Vec2 p2, Time t2, TipState tip,
               std::vector<TipState>& out) {
  out.clear();
  PositionModeler m;
  m.Reset(tip, pp);
  m.ModelEndOfStroke(p2, Duration(1 / sp.min_output_rate), std::min(sp.end_of_stroke_max_iterations, sp.max_outputs_per_call),
                     sp.end_of_stroke_stopping_distance, std::back_inserter(out));
}
void a_none(PositionModelerParams pp, SamplingParams sp, TipState tip, std::vector<TipState>& out) {
  StrokeEndPredictor p(pp, sp);
  p.ConstructPrediction(tip, out);
}
void b_none(PositionModelerParams pp, SamplingParams sp, TipState tip, std::vector<TipState>& out) { out.clear(); }
void a_reset(PositionModelerParams pp, SamplingParams sp, Vec2 p1, Time t1, TipState tip, std::vector<TipState>& out) {
  StrokeEndPredictor p(pp, sp);
  p.Update(p1, t1);
  p.Reset();
  p.ConstructPrediction(tip, out);
}
void b_reset(PositionModelerParams pp, SamplingParams sp, Vec2 p1, Time t1, TipState tip, std::vector<TipState>& out) {
  out.clear();
}
// In any state.
void a_any(const StrokeEndPredictor& p, TipState tip, std::vector<TipState>& out) { p.ConstructPrediction(tip, out); }
void b_any(const StrokeEndPredictor& p, TipState tip, std::vector<TipState>& out) {
  out.clear();
  if (!p.last_position_.has_value()) return;
  PositionModeler m;
  m.Reset(tip, p.position_modeler_params_);
  const SamplingParams& sp = p.sampling_params_;
  m.ModelEndOfStroke(*p.last_position_, Duration(1 / sp.min_output_rate),
                     std::min(sp.end_of_stroke_max_iterations, sp.max_outputs_per_call), sp.end_of_stroke_stopping_distance,
                     std::back_inserter(out));
}
}  // namespace vp
