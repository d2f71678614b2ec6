// Wobble smoothing, stated over whole input histories.
#include "common.h"
//@ third budget=300000 tier=thorough
namespace vp {
Vec2 smooth(const WobbleSmootherParams& w, const Vec2* p, const Time* t, int n) {
  if (!w.is_enabled) return p[n];
  double wx = 0, wy = 0, d = 0, s = 0;
  for (int i = 1; i <= n; ++i) {
    if (t[i].Value() < t[n].Value() - w.timeout.Value()) continue;
    double dt = t[i].Value() - t[i - 1].Value();
    wx += p[i].x * dt;
    wy += p[i].y * dt;
    d += dist(p[i - 1], p[i]);
    s += dt;
  }
  if (s == 0) return p[n];
  Vec2 avg;
  avg.x = wx / s;
  avg.y = wy / s;
  return mix(avg, p[n], ramp(w.speed_floor, w.speed_ceiling, d / s));
}
Vec2 a_first(WobbleSmootherParams w, Vec2 p0, Time t0, Vec2 p1, Time t1) {
  WobbleSmoother s;
  s.Reset(w, p0, t0);
  return s.Update(p1, t1);
}
Vec2 b_first(WobbleSmootherParams w, Vec2 p0, Time t0, Vec2 p1, Time t1) {
  Vec2 p[2] = {p0, p1};
  Time t[2] = {t0, t1};
  return smooth(w, p, t, 1);
}
bool pre_first(WobbleSmootherParams w, Vec2 p0, Time t0, Vec2 p1, Time t1) { return t0 <= t1 && w.timeout > Duration(0); }
Vec2 a_second(WobbleSmootherParams w, Vec2 p0, Time t0, Vec2 p1, Time t1, Vec2 p2, Time t2) {
  WobbleSmoother s;
  s.Reset(w, p0, t0);
  s.Update(p1, t1);
  return s.Update(p2, t2);
}
Vec2 b_second(WobbleSmootherParams w, Vec2 p0, Time t0, Vec2 p1, Time t1, Vec2 p2, Time t2) {
  Vec2 p[3] = {p0, p1, p2};
  Time t[3] = {t0, t1, t2};
  return smooth(w, p, t, 2);
}
bool pre_second(WobbleSmootherParams w, Vec2 p0, Time t0, Vec2 p1, Time t1, Vec2 p2, Time t2) {
  return t0 <= t1 && t1 <= t2 && w.timeout > Duration(0);
}
Vec2 a_third(WobbleSmootherParams w, Vec2 p0, Time t0, Vec2 p1, Time t1, Vec2 p2, Time t2, Vec2 p3, Time t3) {
  WobbleSmoother s;
  s.Reset(w, p0, t0);
  s.Update(p1, t1);
  s.Update(p2, t2);
  return s.Update(p3, t3);
}
Vec2 b_third(WobbleSmootherParams w, Vec2 p0, Time t0, Vec2 p1, Time t1, Vec2 p2, Time t2, Vec2 p3, Time t3) {
  Vec2 p[4] = {p0, p1, p2, p3};
  Time t[4] = {t0, t1, t2, t3};
  return smooth(w, p, t, 3);
}
bool pre_third(WobbleSmootherParams w, Vec2 p0, Time t0, Vec2 p1, Time t1, Vec2 p2, Time t2, Vec2 p3, Time t3) {
  return t0 <= t1 && t1 <= t2 && t2 <= t3 && w.timeout > Duration(0);
}
}  // namespace vp
