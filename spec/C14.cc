// Spring/drag law of the pen tip.
#include "common.h"
namespace vp {
TipState law(TipState s, const PositionModelerParams& p, Vec2 anchor, Time t) {
  double dt = t.Value() - s.time.Value();
  TipState r;
  r.acceleration.x = (anchor.x - s.position.x) / p.spring_mass_constant - p.drag_constant * s.velocity.x;
  r.acceleration.y = (anchor.y - s.position.y) / p.spring_mass_constant - p.drag_constant * s.velocity.y;
  r.velocity.x = s.velocity.x + dt * r.acceleration.x;
  r.velocity.y = s.velocity.y + dt * r.acceleration.y;
  r.position.x = s.position.x + dt * r.velocity.x;
  r.position.y = s.position.y + dt * r.velocity.y;
  r.time = t;
  return r;
}
// One step from any state.
TipState a_step(TipState s, PositionModelerParams p, Vec2 anchor, Time t) {
  PositionModeler m;
  m.Reset(s, p);
  return m.Update(anchor, t);
}
TipState b_step(TipState s, PositionModelerParams p, Vec2 anchor, Time t) { return law(s, p, anchor, t); }
// The new state is also what the next step starts from.
TipState a_kept(TipState s, PositionModelerParams p, Vec2 anchor, Time t) {
  PositionModeler m;
  m.Reset(s, p);
  m.Update(anchor, t);
  return m.CurrentState();
}
TipState b_kept(TipState s, PositionModelerParams p, Vec2 anchor, Time t) { return law(s, p, anchor, t); }
TipState a_two(TipState s, PositionModelerParams p, Vec2 a1, Time t1, Vec2 a2, Time t2) {
  PositionModeler m;
  m.Reset(s, p);
  m.Update(a1, t1);
  return m.Update(a2, t2);
}
TipState b_two(TipState s, PositionModelerParams p, Vec2 a1, Time t1, Vec2 a2, Time t2) {
  return law(law(s, p, a1, t1), p, a2, t2);
}
// A modeler already in use behaves like one just reset to its state.
TipState a_any(PositionModeler m, Vec2 anchor, Time t) { return m.Update(anchor, t); }
TipState b_any(PositionModeler m, Vec2 anchor, Time t) { return law(m.CurrentState(), m.Params(), anchor, t); }
}  // namespace vp
