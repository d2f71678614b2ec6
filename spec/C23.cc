// Kalman recursion for one axis: constant jerk, unit time step.
#include "common.h"
#include "ink_stroke_modeler/internal/prediction/kalman_filter/axis_predictor.h"
#include "ink_stroke_modeler/internal/prediction/kalman_filter/kalman_filter.h"
#include "ink_stroke_modeler/internal/prediction/kalman_filter/matrix.h"
//@ * budget=2000 t=60
namespace vp {
struct Filter {
  double x[4];     // position, velocity, acceleration, jerk
  double c[4][4];  // covariance
  int n;
};
// F: x' = x + v + a/2 + j/6 and so on.
double f_(int i, int j) { return j < i ? 0.0 : j - i == 0 ? 1.0 : j - i == 1 ? 1.0 : j - i == 2 ? 1.0 / 2 : 1.0 / 6; }
double g_(int i) { return i == 0 ? 1.0 / 6 : i == 1 ? 1.0 / 2 : 1.0; }
void observe(Filter& s, double z, double q, double r) {
  ++s.n;
  if (s.n == 1) {
    s.x[0] = z;
    return;
  }
  double x[4], fc[4][4], c[4][4];
  for (int i = 0; i < 4; ++i) {
    x[i] = 0;
    for (int j = 0; j < 4; ++j) x[i] += f_(i, j) * s.x[j];
  }
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) {
      fc[i][j] = 0;
      for (int k = 0; k < 4; ++k) fc[i][j] += f_(i, k) * s.c[k][j];
    }
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) {
      c[i][j] = q * g_(i) * g_(j);
      for (int k = 0; k < 4; ++k) c[i][j] += fc[i][k] * f_(j, k);
    }
  // Only the position is measured.
  double gain[4];
  for (int i = 0; i < 4; ++i) gain[i] = c[0][i] / (c[0][0] + r);
  double innovation = z - x[0];
  for (int i = 0; i < 4; ++i) s.x[i] = x[i] + gain[i] * innovation;
  // (I - K H) P (I - K H)' + K R K'
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j)
      s.c[i][j] = c[i][j] - gain[i] * c[0][j] - c[i][0] * gain[j] + gain[i] * gain[j] * (c[0][0] + r);
}
Filter fresh() {
  Filter s;
  for (int i = 0; i < 4; ++i) {
    s.x[i] = 0;
    for (int j = 0; j < 4; ++j) s.c[i][j] = i == j ? 1 : 0;
  }
  s.n = 0;
  return s;
}
struct Seen {
  double position, velocity, acceleration, jerk;
  int n;
  bool stable;
};
Seen look(const AxisPredictor& a) {
  return {a.GetPosition(), a.GetVelocity(), a.GetAcceleration(), a.GetJerk(), a.NumIterations(), a.Stable()};
}
Seen look(const Filter& s, int min_stable) { return {s.x[0], s.x[1], s.x[2], s.x[3], s.n, s.n >= min_stable}; }
// One step from any state of the filter.
Seen a_step(double q, double r, int k, Vec4 x, Matrix4 c, int n, double z) {
  AxisPredictor a(q, r, k);
  a.kalman_filter_.state_estimation_ = x;
  a.kalman_filter_.error_covariance_matrix_ = c;
  a.kalman_filter_.iter_num_ = n;
  a.Update(z);
  return look(a);
}
Seen b_step(double q, double r, int k, Vec4 x, Matrix4 c, int n, double z) {
  Filter s;
  for (int i = 0; i < 4; ++i) {
    s.x[i] = x[i];
    for (int j = 0; j < 4; ++j) s.c[i][j] = c.array_[i][j];
  }
  s.n = n;
  observe(s, z, q, r);
  return look(s, k);
}
bool pre_step(double q, double r, int k, Vec4 x, Matrix4 c, int n, double z) {
  return n >= 0 && c.array_[0][1] == c.array_[1][0] && c.array_[0][2] == c.array_[2][0] && c.array_[0][3] == c.array_[3][0] &&
         c.array_[1][2] == c.array_[2][1] && c.array_[1][3] == c.array_[3][1] && c.array_[2][3] == c.array_[3][2];
}
// Two steps, so that the covariance of the first is seen by the second.
Seen a_twice(double q, double r, int k, Vec4 x, Matrix4 c, int n, double z, double w) {
  AxisPredictor a(q, r, k);
  a.kalman_filter_.state_estimation_ = x;
  a.kalman_filter_.error_covariance_matrix_ = c;
  a.kalman_filter_.iter_num_ = n;
  a.Update(z);
  a.Update(w);
  return look(a);
}
Seen b_twice(double q, double r, int k, Vec4 x, Matrix4 c, int n, double z, double w) {
  Filter s;
  for (int i = 0; i < 4; ++i) {
    s.x[i] = x[i];
    for (int j = 0; j < 4; ++j) s.c[i][j] = c.array_[i][j];
  }
  s.n = n;
  observe(s, z, q, r);
  observe(s, w, q, r);
  return look(s, k);
}
bool pre_twice(double q, double r, int k, Vec4 x, Matrix4 c, int n, double z, double w) {
  return n >= 1 && pre_step(q, r, k, x, c, n, z);
}
// From the beginning, through the interface only.
Seen a_start(double q, double r, int k, double z1, double z2, double z3, double z4) {
  AxisPredictor a(q, r, k);
  a.Update(z1);
  a.Update(z2);
  a.Update(z3);
  a.Update(z4);
  return look(a);
}
Seen b_start(double q, double r, int k, double z1, double z2, double z3, double z4) {
  Filter s = fresh();
  observe(s, z1, q, r);
  observe(s, z2, q, r);
  observe(s, z3, q, r);
  observe(s, z4, q, r);
  return look(s, k);
}
Seen a_first(double q, double r, int k, double z) {
  AxisPredictor a(q, r, k);
  a.Update(z);
  return look(a);
}
Seen b_first(double q, double r, int k, double z) { return {z, 0, 0, 0, 1, 1 >= k}; }
// A reset filter is as good as new.
Seen a_again(AxisPredictor& a, double q, double r, int k, double z1, double z2, double z3) {
  a = AxisPredictor(q, r, k);
  a.Update(z3);
  a.Update(z1);
  a.Update(z2);
  a.Reset();
  a.Update(z1);
  a.Update(z2);
  a.Update(z3);
  return look(a);
}
Seen b_again(AxisPredictor& a, double q, double r, int k, double z1, double z2, double z3) {
  a = AxisPredictor(q, r, k);
  a.Update(z1);
  a.Update(z2);
  a.Update(z3);
  return look(a);
}
// Whatever the filter went through before.
Seen a_clean(double q, double r, int k, Vec4 x, Matrix4 c, int n, double z1, double z2) {
  AxisPredictor a(q, r, k);
  a.kalman_filter_.state_estimation_ = x;
  a.kalman_filter_.error_covariance_matrix_ = c;
  a.kalman_filter_.iter_num_ = n;
  a.Reset();
  a.Update(z1);
  a.Update(z2);
  return look(a);
}
Seen b_clean(double q, double r, int k, Vec4 x, Matrix4 c, int n, double z1, double z2) {
  AxisPredictor a(q, r, k);
  a.Update(z1);
  a.Update(z2);
  return look(a);
}
bool pre_clean(double q, double r, int k, Vec4 x, Matrix4 c, int n, double z1, double z2) { return n >= 0; }
}  // namespace vp
