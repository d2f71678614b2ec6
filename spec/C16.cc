// End-of-stroke catch-up.
#include "common.h"
namespace vp {
void a_end(PositionModeler& m, Vec2 anchor, Duration dt, int max_it, float stop, std::vector<TipState>& out) {
  m.ModelEndOfStroke(anchor, dt, max_it, stop, std::back_inserter(out));
}
void b_end(PositionModeler& m, Vec2 anchor, Duration dt, int max_it, float stop, std::vector<TipState>& out) {
  double step = dt.Value();
  for (int i = 0; i < max_it; ++i) {
    PositionModeler trial = m;
    TipState from = m.CurrentState();
    TipState to = trial.Update(anchor, Time(from.time.Value() + step));
    if (dist(from.position, to.position) < stop) { m = trial; return; }
    // Overshoot: the closest point of the step to the anchor is not its end.
    double vx = to.position.x - from.position.x, vy = to.position.y - from.position.y;
    bool moved = !(to.position.x == from.position.x && to.position.y == from.position.y);
    double r = moved ? clamp01(((anchor.x - from.position.x) * vx + (anchor.y - from.position.y) * vy) / (vx * vx + vy * vy)) : 0;
    if (r < 1) { step = step / 2; continue; }
    m = trial;
    out.push_back(to);
    if (dist(to.position, anchor) < stop) return;
  }
}
}  // namespace vp
