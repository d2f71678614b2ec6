// Shared by the specification units.  Nothing here is compiled into a program:
// the units are parsed and analysed only.
#ifndef VP_COMMON_H_
#define VP_COMMON_H_
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <deque>
#include <iterator>
#include <limits>
#include <memory>
#include <optional>
#include <variant>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "ink_stroke_modeler/internal/internal_types.h"
#include "ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.h"
#include "ink_stroke_modeler/internal/position_modeler.h"
#include "ink_stroke_modeler/internal/prediction/input_predictor.h"
#include "ink_stroke_modeler/internal/prediction/kalman_predictor.h"
#include "ink_stroke_modeler/internal/prediction/stroke_end_predictor.h"
#include "ink_stroke_modeler/internal/stylus_state_modeler.h"
#include "ink_stroke_modeler/internal/utils.h"
#include "ink_stroke_modeler/internal/wobble_smoother.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/stroke_modeler.h"
#include "ink_stroke_modeler/types.h"
namespace vp {
using namespace ink::stroke_model;
inline double clamp01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
inline double len(Vec2 a) { return std::hypot(a.x, a.y); }
inline double dist(Vec2 a, Vec2 b) { return std::hypot(b.x - a.x, b.y - a.y); }
inline Vec2 mix(Vec2 a, Vec2 b, double t) {
  Vec2 r;
  r.x = a.x + (b.x - a.x) * t;
  r.y = a.y + (b.y - a.y) * t;
  return r;
}
inline double mixd(double a, double b, double t) { return a + (b - a) * t; }
// 0 at lo, 1 at hi, linear and clamped in between; a step when lo == hi.
inline double ramp(double lo, double hi, double v) {
  if (lo == hi) return v > lo ? 1 : 0;
  return clamp01((v - lo) / (hi - lo));
}
}  // namespace vp
#endif
