// C01: histories of pose operations; every step is compared with rigid-motion arithmetic in extended precision,
// computed from the operands' values before the step.
#include "scene.hpp"
struct M { V t; Q q; };  // model pose, q of unit norm
static V act(const M& m, V v) { return qrot(m.q, v) + m.t; }
static M mul(const M& a, const M& b) { return M{qrot(a.q, b.t) + a.t, qunit(qmul(a.q, b.q))}; }
static M inv(const M& a) { M r; r.q = qconj(a.q); r.t = qrot(r.q, -a.t); return r; }
static M read(const lib::Pose& p) { return M{vec(p.get_position()), qunit(qof(p.get_orientation()))}; }
static Q anyQ(mon::Rng& r) { Q q = randQ(r); R n = r.chance(0.4) ? 1 : (R)r.logu(1e-3, 1e3); if (r.chance(0.3)) n = -n; if (r.chance(0.1)) n = 1 + r.uni(-2e-4, 2e-4); if (r.chance(.08)) n = r.logu(1e-60, 1e60); return rq(Q{q.w * n, q.x * n, q.y * n, q.z * n}); }
static bool same(const E3& a, const E3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
static bool sameq(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) { return a.w() == b.w() && a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }

static void poses(mon::Ctx& c) {
  auto& r = c.rng;
  const int K = 4; std::vector<lib::Pose> p(K, lib::Pose()); std::vector<M> m(K);
  int steps = r.chance(0.1) ? 150 : r.range(5, 30);
  std::string hist; R opScale = 1; bool powers = r.chance(0.1); double far = r.chance(.15) ? r.logu(1e-6, 1e4) : 50;
  auto cmp = [&](const lib::Pose& g, const M& w, const char* op) {
    R sc = opScale + norm(w.t);
    c.check(std::fabs(qnorm(qof(g.get_orientation())) - 1) < 1e-9L, "unit", "%s: orientation norm %.17Lg; history %s", op, qnorm(qof(g.get_orientation())), hist.c_str());
    c.check(qdist(qof(g.get_orientation()), w.q) < 1e-12L, "orientation", "%s: orientation differs by %.3Lg; history %s", op, qdist(qof(g.get_orientation()), w.q), hist.c_str());
    c.check(dist(g.get_position(), w.t) < 1e-12L * sc * 20, "position", "%s: position %s expected %s; history %s", op, vs(vec(g.get_position())).c_str(), vs(w.t).c_str(), hist.c_str());
    for (int i = 0; i < 2; ++i) { V v = rd(randV(r, 10)), u = rd(randV(r, 10));
      c.check(dist(g * eig(v), act(w, v)) < 1e-12L * sc * 50, "action", "%s: maps %s to %s expected %s", op, vs(v).c_str(), vs(vec(g * eig(v))).c_str(), vs(act(w, v)).c_str());
      R d = norm(vec(g * eig(v)) - vec(g * eig(u)));
      c.check(std::fabs(d - norm(v - u)) < 1e-11L * sc, "distance", "%s: distance %.17Lg became %.17Lg", op, norm(v - u), d); } };
  for (int s = 0; s < steps; ++s) {
    int i = r.below(K), j = r.below(K), k = r.below(K); const char* op = "";
    if (norm(m[i].t) > 1e5L) { p[i].set_position(eig(V())); m[i].t = V(); }
    std::vector<lib::Pose> before = p; opScale = 1 + norm(m[i].t) + norm(m[j].t) + norm(m[k].t);
    int what = r.below(14); if (powers && r.chance(0.7)) { what = 8; i = 0; }
    switch (what) {
      case 0: { op = "ctor(position,quaternion)"; V t = oddly(r, rd(randV(r, far))); Q q = anyQ(r); p[i] = lib::Pose(eig(t), eq(q)); m[i] = M{t, qunit(q)}; break; }
      case 1: { op = "ctor(7 numbers)"; V t = oddly(r, rd(randV(r, far))); Q q = anyQ(r); p[i] = lib::Pose((double)t.x, (double)t.y, (double)t.z, (double)q.w, (double)q.x, (double)q.y, (double)q.z); m[i] = M{t, qunit(q)}; break; }
      case 2: { op = "ctor(position)"; V t = oddly(r, rd(randV(r, far))); if (r.chance(0.5)) p[i] = lib::Pose(eig(t)); else p[i] = lib::Pose((double)t.x, (double)t.y, (double)t.z); m[i] = M{t, Q{}}; break; }
      case 3: { op = "copy"; lib::Pose q(p[j]); p[i] = q; m[i] = m[j]; break; }
      case 4: { op = "set_position"; V t = oddly(r, rd(randV(r, far))); if (r.chance(0.5)) p[i].set_position(eig(t)); else p[i].set_position((double)t.x, (double)t.y, (double)t.z); m[i].t = t;
        c.check(same(p[i].get_position(), eig(t)), "readback", "position not read back"); c.check(sameq(p[i].get_orientation(), before[i].get_orientation()), "other-field", "set_position changed the orientation"); break; }
      case 5: { op = "set_orientation"; Q q = anyQ(r); p[i].set_orientation(eq(q)); m[i].q = qunit(q); c.check(same(p[i].get_position(), before[i].get_position()), "other-field", "set_orientation changed the position"); break; }
      case 6: case 7: { op = "*="; lib::Pose& ret = (p[i] *= p[j]); m[i] = mul(m[i], m[j]); c.check(&ret == &p[i], "returns-self", "*= does not return the pose"); break; }
      case 8: { op = "self *="; p[i] *= p[i]; m[i] = mul(m[i], m[i]); c.cls("self composition"); break; }
      case 9: case 10: { op = "*"; p[i] = p[j] * p[k]; m[i] = mul(m[j], m[k]); break; }
      case 11: { op = "inverse"; p[i] = p[j].inverse(); m[i] = inv(m[j]); break; }
      case 12: { op = "associativity"; lib::Pose a = (p[i] * p[j]) * p[k], b = p[i] * (p[j] * p[k]); R sc = 1 + norm(m[i].t) + norm(m[j].t) + norm(m[k].t);
        c.check(norm(vec(a.get_position()) - vec(b.get_position())) < 1e-11L * sc && qdist(qof(a.get_orientation()), qof(b.get_orientation())) < 1e-11L, "associative", "composition not associative"); break; }
      default: { op = "inverse identity"; R sc = 1 + norm(m[i].t);
        for (int w = 0; w < 2; ++w) { lib::Pose e = w ? p[i] * p[i].inverse() : p[i].inverse() * p[i];
          c.check(norm(vec(e.get_position())) < 1e-11L * sc && qdist(qof(e.get_orientation()), Q{}) < 1e-11L, "inverse", "pose times inverse is not the identity: position %s", vs(vec(e.get_position())).c_str()); } }
    }
    hist += op; hist += mon::fmt("[%d,%d,%d] ", i, j, k);
    cmp(p[i], m[i], op);
    for (int n = 0; n < K; ++n) if (n != i) c.check(same(p[n].get_position(), before[n].get_position()) && sameq(p[n].get_orientation(), before[n].get_orientation()), "bystander", "%s on pose %d changed pose %d", op, i, n);
    m[i] = read(p[i]);  // the next step is judged from the value actually held
    c.cls(op); c.note((double)m[i].t.x);
  }
  c.describe(hist);
}
struct Fields { V pos; Q q; V lin, ang; };
template <class T> static void fieldCheck(mon::Ctx& c, const T& o, const Fields& f, const char* what) {
  c.check(dist(o.get_position(), f.pos) == 0, "field", "%s: position %s expected %s", what, vs(vec(o.get_position())).c_str(), vs(f.pos).c_str());
  c.check(qdist(qof(o.get_orientation()), qunit(f.q)) < 1e-14L, "field", "%s: orientation", what);
  c.check(std::fabs(qnorm(qof(o.get_orientation())) - 1) < 1e-12L, "unit", "%s: orientation not unit: %.17Lg", what, qnorm(qof(o.get_orientation())));
  c.check(dist(o.get_linear_velocity(), f.lin) == 0, "field", "%s: linear velocity", what);
  c.check(dist(o.get_angular_velocity(), f.ang) == 0, "field", "%s: angular velocity", what);
  c.check(dist(o.get_pose().get_position(), f.pos) == 0 && qdist(qof(o.get_pose().get_orientation()), qunit(f.q)) < 1e-14L, "field", "%s: pose disagrees with its parts", what);
}
static lib::State mk(mon::Rng& r, Fields& f) {
  f = Fields{oddly(r, rd(randV(r, 20))), anyQ(r), oddly(r, rd(randV(r, 3))), oddly(r, rd(randV(r, 3)))};
  switch (r.below(6)) {
    case 0: f = Fields(); return lib::State();
    case 1: f.lin = f.ang = V(); return lib::State(lib::Pose(eig(f.pos), eq(f.q)));
    case 2: f.lin = f.ang = V(); f.q = Q{}; return lib::State((double)f.pos.x, (double)f.pos.y, (double)f.pos.z);
    case 3: f.lin = f.ang = V(); f.q = Q{}; return lib::State(eig(f.pos));
    case 4: f.lin = f.ang = V(); return lib::State(eig(f.pos), eq(f.q));
    default: return lib::State(eig(f.pos), eq(f.q), eig(f.lin), eig(f.ang)); } }
static void states(mon::Ctx& c) {
  auto& r = c.rng; Fields f; lib::State s = mk(r, f); fieldCheck(c, s, f, "state constructor");
  lib::State other = s; Fields f0 = f;
  for (int n = 0; n < 12; ++n) { const char* op;
    switch (r.below(6)) {
      case 0: { op = "state set_pose"; f.pos = oddly(r, rd(randV(r, 20))); f.q = anyQ(r); s.set_pose(lib::Pose(eig(f.pos), eq(f.q))); break; }
      case 1: op = "state set_position"; f.pos = oddly(r, rd(randV(r, 20))); s.set_position(eig(f.pos)); break;
      case 2: op = "state set_position(xyz)"; f.pos = oddly(r, rd(randV(r, 20))); s.set_position((double)f.pos.x, (double)f.pos.y, (double)f.pos.z); break;
      case 3: op = "state set_orientation"; f.q = anyQ(r); s.set_orientation(eq(f.q)); break;
      case 4: op = "state set_linear_velocity"; f.lin = oddly(r, rd(randV(r, 3))); s.set_linear_velocity(eig(f.lin)); break;
      default: op = "state set_angular_velocity"; f.ang = oddly(r, rd(randV(r, 3))); s.set_angular_velocity(eig(f.ang)); }
    fieldCheck(c, s, f, op); c.cls(op); c.note((double)f.pos.x + n); }
  fieldCheck(c, other, f0, "copied state"); c.describe("state history");
}
static void obstacles(mon::Ctx& c) {
  auto& r = c.rng; Fields f; lib::State st = mk(r, f); V ref = oddly(r, rd(randV(r, 20))), mar = rd(V(r.uni(0, 1), r.uni(0, 1), r.uni(0, 1))); std::string name = r.chance(.2) ? oddNames()[r.below(oddNames().size())] : "o" + std::to_string(r.below(1000));
  V mm(mar.x, mar.x, mar.x); std::shared_ptr<lib::Obstacle> o; V wantRef = ref, wantM = mar; int kind = r.below(16); bool ell = kind & 1;
  typedef lib::Obstacle O; typedef lib::Ellipsoid L; double px = (double)f.pos.x, py = (double)f.pos.y, pz = (double)f.pos.z;
  bool refKnown = true;
#define BOTH(...) (ell ? std::shared_ptr<O>(std::make_shared<L>(__VA_ARGS__)) : std::make_shared<O>(__VA_ARGS__))
  switch (kind / 2) {
    case 0: o = BOTH(name, (double)mar.x); f = Fields(); wantM = mm; wantRef = V(); break;
    case 1: o = BOTH(name, arr(mar)); f = Fields(); wantRef = V(); break;
    case 2: o = BOTH(name, px, py, pz, (double)mar.x); f = Fields{f.pos, Q{}, V(), V()}; wantRef = f.pos; wantM = mm; break;
    case 3: o = BOTH(name, px, py, pz, arr(mar)); f = Fields{f.pos, Q{}, V(), V()}; wantRef = f.pos; break;
    case 4: o = BOTH(name, st, (double)mar.x); wantRef = f.pos; wantM = mm; break;
    case 5: o = BOTH(name, st, arr(mar)); wantRef = f.pos; break;
    case 6: o = BOTH(name, st, eig(ref), (double)mar.x); wantM = mm; break;
    default: o = BOTH(name, st, eig(ref), arr(mar)); }
  c.cls(ell ? "ellipsoid construction" : "obstacle construction");
  c.describe(mon::fmt("obstacle constructor %d", kind));
  V len(1, 1, 1), curv(1, 1, 1);
  auto all = [&](const lib::Obstacle& b, const char* what) {
    fieldCheck(c, b, f, what); fieldCheck(c, b.get_state(), f, what);
    c.check(b.get_name() == name, "field", "%s: name %s expected %s", what, b.get_name().c_str(), name.c_str());
    c.check(dist(b.get_reference_position(), wantRef) == 0, "field", "%s: reference point %s expected %s", what, vs(vec(b.get_reference_position())).c_str(), vs(wantRef).c_str());
    for (int i = 0; i < 3; ++i) c.check(b.get_safety_margin()(i) == (double)wantM[i], "field", "%s: safety margin", what);
    if (ell) { const L& e = static_cast<const L&>(b); for (int i = 0; i < 3; ++i) c.check(e.get_axis_lengths()(i) == (double)len[i] && e.get_axis_lengths(i) == (double)len[i] && e.get_curvature_factor()(i) == (double)curv[i] && e.get_curvature_factor(i) == (double)curv[i], "field", "%s: axis lengths or curvature", what); } };
  all(*o, "obstacle constructor");
  for (int n = 0; n < 14; ++n) { const char* op;
    switch (r.below(ell ? 10 : 8)) {
      case 0: op = "obstacle set_pose"; f.pos = oddly(r, rd(randV(r, 20))); f.q = anyQ(r); o->set_pose(lib::Pose(eig(f.pos), eq(f.q))); break;
      case 1: op = "obstacle set_position"; f.pos = oddly(r, rd(randV(r, 20))); o->set_position(eig(f.pos)); break;
      case 2: op = "obstacle set_position(xyz)"; f.pos = oddly(r, rd(randV(r, 20))); o->set_position((double)f.pos.x, (double)f.pos.y, (double)f.pos.z); break;
      case 3: op = "obstacle set_orientation"; f.q = anyQ(r); o->set_orientation(eq(f.q)); break;
      case 4: op = "obstacle set_linear_velocity"; f.lin = oddly(r, rd(randV(r, 3))); o->set_linear_velocity(eig(f.lin)); break;
      case 5: op = "obstacle set_angular_velocity"; f.ang = oddly(r, rd(randV(r, 3))); o->set_angular_velocity(eig(f.ang)); break;
      case 6: op = "obstacle set_reference_position"; wantRef = oddly(r, rd(randV(r, 20))); o->set_reference_position(eig(wantRef)); break;
      case 7: op = "obstacle set_name"; name = "n" + std::to_string(r.below(99)); o->set_name(name); break;
      case 8: op = "ellipsoid set_axis_lengths"; len = rd(V(r.uni(.1, 5), r.uni(.1, 5), r.uni(.1, 5))); static_cast<L&>(*o).set_axis_lengths(arr(len)); break;
      default: op = "ellipsoid set_curvature_factor"; curv = V(r.range(1, 4), r.range(1, 4), r.range(1, 4)); static_cast<L&>(*o).set_curvature_factor(arr(curv)); }
    all(*o, op); c.cls(op); c.note((double)f.pos.y + n); }
  if (ell) { L copy(static_cast<const L&>(*o)); all(copy, "ellipsoid copy"); c.cls("ellipsoid copy"); }
}
static void run(mon::Ctx& c) { int k = c.rng.below(4); if (k < 2) poses(c); else if (k == 2) states(c); else obstacles(c); }
int main(int a, char** v) { return mon::drive(a, v, "C01", run); }
