// Value types.
#include "common.h"
//@ cmp_* ieee=*
//@ angle ieee=a.*,b.*
namespace vp {
struct V2 {
  Vec2 add, sub, mul, mul2, div;
};
V2 a_vec(Vec2 a, Vec2 b, float s) { return {a + b, a - b, a * s, s * a, a / s}; }
V2 b_vec(Vec2 a, Vec2 b, float s) {
  return {{a.x + b.x, a.y + b.y}, {a.x - b.x, a.y - b.y}, {a.x * s, a.y * s}, {s * a.x, s * a.y}, {a.x / s, a.y / s}};
}
V2 a_vecset(Vec2 a, Vec2 b, float s) {
  Vec2 p = a, q = a, r = a, t = a;
  Vec2 &p2 = p += b;
  p2 += {0, 0};
  q -= b;
  r *= s;
  t /= s;
  return {p, q, r, r, t};
}
V2 b_vecset(Vec2 a, Vec2 b, float s) { return {a + b, a - b, a * s, a * s, a / s}; }
struct D1 {
  double dot, mag;
  bool zero;
};
D1 a_length(Vec2 a, Vec2 b) { return {Vec2::DotProduct(a, b), a.Magnitude(), Vec2{}.x == 0 && Vec2{}.y == 0}; }
D1 b_length(Vec2 a, Vec2 b) { return {a.x * b.x + a.y * b.y, std::sqrt(a.x * a.x + a.y * a.y), true}; }
struct D8 {
  double add, sub, mul, mul2, div, padd, psub, pmul, pdiv, zero;
};
D8 a_duration(Duration a, Duration b, double s) {
  Duration p = a, q = a, r = a, t = a;
  p += b;
  q -= b;
  r *= s;
  t /= s;
  return {(a + b).Value(), (a - b).Value(), (a * s).Value(), (s * a).Value(), (a / s).Value(),
          p.Value(), q.Value(), r.Value(), t.Value(), Duration().Value()};
}
D8 b_duration(Duration a, Duration b, double s) {
  double x = a.Value(), y = b.Value();
  return {x + y, x - y, x * s, x * s, x / s, x + y, x - y, x * s, x / s, 0};
}
struct T6 {
  double add, add2, sub, diff, padd, psub, zero, self;
};
T6 a_time(Time a, Time b, Duration d, double v) {
  Time p = a, q = a;
  p += d;
  q -= d;
  return {(a + d).Value(), (d + a).Value(), (a - d).Value(), (a - b).Value(), p.Value(), q.Value(), Time().Value(), Time(v).Value()};
}
T6 b_time(Time a, Time b, Duration d, double v) {
  double x = a.Value(), y = d.Value();
  return {x + y, x + y, x - y, x - b.Value(), x + y, x - y, 0, v};
}
struct B6 {
  bool eq, ne, lt, gt, le, ge;
};
B6 a_cmp_time(Time a, Time b) { return {a == b, a != b, a < b, a > b, a <= b, a >= b}; }
B6 b_cmp_time(Time a, Time b) {
  double x = a.Value(), y = b.Value();
  return {x == y, x != y, x < y, x > y, x <= y, x >= y};
}
B6 a_cmp_duration(Duration a, Duration b) { return {a == b, a != b, a < b, a > b, a <= b, a >= b}; }
B6 b_cmp_duration(Duration a, Duration b) {
  double x = a.Value(), y = b.Value();
  return {x == y, x != y, x < y, x > y, x <= y, x >= y};
}
struct B2 {
  bool eq, ne;
};
B2 a_cmp_vec(Vec2 a, Vec2 b) { return {a == b, a != b}; }
B2 b_cmp_vec(Vec2 a, Vec2 b) {
  bool e = a.x == b.x && a.y == b.y;
  return {e, !e};
}
bool a_cmp_finite(Vec2 a) { return a.IsFinite(); }
bool b_cmp_finite(Vec2 a) { return std::isfinite(a.x) && std::isfinite(a.y); }
B2 a_cmp_input(const Input& a, const Input& b) { return {a == b, a != b}; }
B2 b_cmp_input(const Input& a, const Input& b) {
  bool e = a.event_type == b.event_type && a.position.x == b.position.x && a.position.y == b.position.y &&
           a.time.Value() == b.time.Value() && a.pressure == b.pressure && a.tilt == b.tilt && a.orientation == b.orientation;
  return {e, !e};
}
B2 a_cmp_result(const Result& a, const Result& b) { return {a == b, a != b}; }
B2 b_cmp_result(const Result& a, const Result& b) {
  bool e = a.position.x == b.position.x && a.position.y == b.position.y && a.velocity.x == b.velocity.x &&
           a.velocity.y == b.velocity.y && a.acceleration.x == b.acceleration.x && a.acceleration.y == b.acceleration.y &&
           a.time.Value() == b.time.Value() && a.pressure == b.pressure && a.tilt == b.tilt && a.orientation == b.orientation;
  return {e, !e};
}
struct Angle {
  int code;
  double value;
};
Angle a_angle(Vec2 a, Vec2 b) {
  absl::StatusOr<float> r = a.AbsoluteAngleTo(b);
  return {static_cast<int>(r.status().code()), r.ok() ? *r : 0};
}
Angle b_angle(Vec2 a, Vec2 b) {
  if (!std::isfinite(a.x) || !std::isfinite(a.y) || !std::isfinite(b.x) || !std::isfinite(b.y)) return {3, 0};
  double m = std::hypot(a.x, a.y), n = std::hypot(b.x, b.y);
  if (m == 0 || n == 0) return {0, 0};
  double d = (a.x / m) * (b.x / n) + (a.y / m) * (b.y / n);
  return {0, std::acos(d < -1 ? -1.0 : d > 1 ? 1.0 : d)};
}
}  // namespace vp
