// Stylus attributes along the raw-input polyline.
#include "common.h"
//@ query budget=300000 t=90
namespace vp {
// Angles turn the shorter way round and stay within one turn.
double swept(double a, double b, double t) {
  double d = b - a;
  if (d > kPi) d -= 2 * kPi;
  else if (d < -kPi) d += 2 * kPi;
  return a + d * clamp01(t);
}
float a_angle(float a, float b, float t) { return InterpAngle(a, b, t); }
float b_angle(float a, float b, float t) {
  double e = swept(a, b, t);
  return e < 0 ? e + 2 * kPi : e > 2 * kPi ? e - 2 * kPi : e;
}
// The last two say what convexity implies: the angle stays within half a turn of both ends.
bool pre_angle(float a, float b, float t) {
  double e = swept(a, b, t);
  return a >= 0 && a < 2 * kPi && b >= 0 && b < 2 * kPi && b - a != kPi && a - b != kPi && e > -2 * kPi && e < 4 * kPi;
}
// Result blending
Result a_blend(Result u, Result v, float t) { return InterpResult(u, v, t); }
Result b_blend(Result u, Result v, float t) {
  double k = clamp01(t);
  Result r;
  r.position = mix(u.position, v.position, k);
  r.velocity = mix(u.velocity, v.velocity, k);
  r.acceleration = mix(u.acceleration, v.acceleration, k);
  r.time = Time(mixd(u.time.Value(), v.time.Value(), k));
  r.pressure = u.pressure < 0 || v.pressure < 0 ? -1 : mixd(u.pressure, v.pressure, k);
  r.tilt = u.tilt < 0 || v.tilt < 0 ? -1 : mixd(u.tilt, v.tilt, k);
  r.orientation = u.orientation < 0 || v.orientation < 0 ? -1 : InterpAngle(u.orientation, v.orientation, t);
  return r;
}
// Nearest point of a segment.
float a_near(Vec2 a, Vec2 b, Vec2 p) { return NearestPointOnSegment(a, b, p); }
float b_near(Vec2 a, Vec2 b, Vec2 p) {
  if (a.x == b.x && a.y == b.y) return 0;
  double vx = b.x - a.x, vy = b.y - a.y;
  return clamp01(((p.x - a.x) * vx + (p.y - a.y) * vy) / (vx * vx + vy * vy));
}
// Intersection of a segment with the line through a point along a direction.
std::optional<float> a_cast(Vec2 a, Vec2 b, Vec2 p, Vec2 n) { return ProjectToSegmentAlongNormal(a, b, p, n); }
std::optional<float> b_cast(Vec2 a, Vec2 b, Vec2 p, Vec2 n) {
  double vx = b.x - a.x, vy = b.y - a.y;
  double det = n.x * vy - n.y * vx;
  if (det == 0) return std::nullopt;
  double k = ((a.x - p.x) * n.y - (a.y - p.y) * n.x) / det;
  if (k < 0 || k > 1) return std::nullopt;
  return static_cast<float>(k);
}
// Direction normal to the stroke.
std::optional<Vec2> a_normal(TipState s, Time prev) { return GetStrokeNormal(s, prev); }
std::optional<Vec2> b_normal(TipState s, Time prev) {
  double v = len(s.velocity), a = len(s.acceleration);
  if (v == 0 && a == 0) return std::nullopt;
  Vec2 d;
  if (v == 0) {
    d = s.acceleration;
  } else if (a == 0) {
    d = s.velocity;
  } else {
    double dot = s.velocity.x * s.acceleration.x + s.velocity.y * s.acceleration.y;
    if (std::abs(dot) > 0.99996192 * v * a) {
      d = s.velocity;
    } else {
      double dt = s.time.Value() - prev.Value();
      Vec2 w;
      w.x = s.velocity.x + s.acceleration.x * dt;
      w.y = s.velocity.y + s.acceleration.y * dt;
      d.x = s.velocity.x / v + w.x / len(w);
      d.y = s.velocity.y / v + w.y / len(w);
    }
  }
  Vec2 r;
  r.x = -d.y;
  r.y = d.x;
  return r;
}
// Whole query, for any stored polyline.
struct Spot {
  int seg;
  float ratio;
};
Result a_query(const StylusStateModeler& m, TipState tip, std::optional<Vec2> normal) { return m.Query(tip, normal); }
Result b_query(const StylusStateModeler& m, TipState tip, std::optional<Vec2> normal) {
  const std::deque<Result>& q = m.state_.raw_input_and_stylus_states;
  Result r;
  if (q.empty()) {
    r.position = {0, 0};
    r.velocity = {0, 0};
    r.acceleration = {0, 0};
    r.time = Time(0);
    r.pressure = r.tilt = r.orientation = -1;
    return r;
  }
  std::optional<Spot> spot;
  if (m.params_.use_stroke_normal_projection && normal.has_value()) {
    std::optional<Spot> left, right;
    double bl = std::numeric_limits<float>::infinity(), br = std::numeric_limits<float>::infinity();
    for (std::size_t i = 0; i < q.size() - 1; ++i) {
      std::optional<float> k = ProjectToSegmentAlongNormal(q[i].position, q[i + 1].position, tip.position, *normal);
      if (!k.has_value()) continue;
      Vec2 at = mix(q[i].position, q[i + 1].position, clamp01(*k));
      double d = dist(tip.position, at);
      Spot s{static_cast<int>(i), *k};
      // The normal points to the left of the stroke.
      if ((at.x - tip.position.x) * normal->x + (at.y - tip.position.y) * normal->y < 0) {
        if (d < br) { right = s; br = d; }
      } else {
        if (d < bl) { left = s; bl = d; }
      }
    }
    // With a candidate on both sides, take the outside of the turn.
    if (left.has_value() && right.has_value()) {
      spot = normal->x * tip.acceleration.x + normal->y * tip.acceleration.y > 0 ? right : left;
    } else {
      spot = right.has_value() ? right : left;
    }
  } else {
    double best = std::numeric_limits<float>::infinity();
    for (std::size_t i = 0; i < q.size() - 1; ++i) {
      float k = NearestPointOnSegment(q[i].position, q[i + 1].position, tip.position);
      double d = dist(tip.position, mix(q[i].position, q[i + 1].position, clamp01(k)));
      if (d <= best) { spot = Spot{static_cast<int>(i), k}; best = d; }
    }
  }
  if (spot.has_value()) {
    r = InterpResult(q[spot->seg], q[spot->seg + 1], spot->ratio);
  } else if (dist(q.front().position, tip.position) < dist(q.back().position, tip.position)) {
    r = q.front();
  } else {
    r = q.back();
  }
  r.time = tip.time;
  if (m.state_.received_unknown_pressure) r.pressure = -1;
  if (m.state_.received_unknown_tilt) r.tilt = -1;
  if (m.state_.received_unknown_orientation) r.orientation = -1;
  return r;
}
}  // namespace vp
