// C08: a pool of agents under histories of operations; after every operation every agent must equal its own model.
#include "planar.hpp"
struct Mod { V pos; Q q; V lin, ang; double m; };
static void judge(mon::Ctx& c, const lib::Agent& a, const Mod& m, const std::string& hist, mon::Rng& r, bool deep) {
  auto bad = [&](bool ok, const char* key, const std::string& what) { c.check(ok, key, "%s; history %s", what.c_str(), hist.c_str()); };
  R sc = 1 + norm(m.pos);
  bad(dist(a.get_position(), m.pos) <= 1e-12L * sc && dist(a.get_state().get_position(), m.pos) <= 1e-12L * sc && dist(a.get_pose().get_position(), m.pos) <= 1e-12L * sc, "position", "position " + vs(vec(a.get_position())) + " expected " + vs(m.pos));
  bad(qdist(qof(a.get_orientation()), m.q) < 1e-12L && std::fabs(qnorm(qof(a.get_orientation())) - 1) < 1e-9L, "orientation", "orientation differs");
  bad(dist(a.get_linear_velocity(), m.lin) == 0 && dist(a.get_angular_velocity(), m.ang) == 0, "velocity", "velocity differs");
  bad(a.get_safety_margin() == m.m, "margin", mon::fmt("margin %g expected %g", a.get_safety_margin(), m.m));
  const lib::Obstacle& e = a.get_envelope();
  R v = norm(m.lin); V off = v > 0 ? (R)(0.5L / v) * m.lin : V(); V ctr = m.pos + off; R mm = std::max((R)0.1, (R)m.m), ax = norm(off) + mm, th = v > 0 ? std::atan2(m.lin.y, m.lin.x) : 0;
  if (m.lin.x == 0 && m.lin.y == 0) th = 0;
  bad(dist(e.get_position(), ctr) <= 1e-12L * sc, "region-centre", "region centred at " + vs(vec(e.get_position())) + " expected " + vs(ctr));
  bad(dist(e.get_reference_position(), ctr) <= 1e-12L * sc, "region-reference", "region has its reference point at " + vs(vec(e.get_reference_position())) + " expected " + vs(ctr));
  bad(e.get_type() == "Ellipsoid", "region-kind", "region is no ellipsoid");
  Foot f{ctr.x, ctr.y, ax, mm, th};
  int n = deep ? 10 : 3;
  for (int i = 0; i < n; ++i) { R t = r.uni(0, 6.2831853), k = 1 + (R)r.sgn() * (R)r.logu(1e-6, 0.5); if (k < 0.1L) k = 0.5L; R px, py; onContour(Foot{f.x, f.y, f.a * k, f.b * k, f.th}, t, px, py);
    R fv = fval(f, px, py); if (std::fabs(fv - 1) < 1e-9L * sc) continue; bool in = e.point_is_inside(eig(V(px, py, m.pos.z)));
    bad(in == (fv <= 1), "region", mon::fmt("region half-axes %.9Lg %.9Lg heading %.6Lg: point at level %.9Lg is reported %s", f.a, f.b, f.th, fv, in ? "inside" : "outside")); }
  if (deep) { Eigen::MatrixXd s = e.sample_from_parameterization(20, true); for (int i = 0; i < 20; ++i) bad(std::fabs(fval(f, s(0, i), s(1, i)) - 1) < 1e-9L * sc, "region-contour", "contour of the region is off"); }
}
static V vel(mon::Rng& r) { switch (r.below(8)) { case 0: return V(); case 1: return V(0, 0, r.uni(-2, 2)); case 2: { V v; v[r.below(2)] = r.sgn() * r.uni(.1, 3); return rd(v); } case 3: return rd(r.logu(1e-9, 1e6) * randDir(r)); case 4: return oddly(r, rd(randV(r, 2))); default: { V v = randV(r, 2); v.z = 0; return rd(v); } } }
static Q anyQ(mon::Rng& r) { Q q = randQ(r); R k = r.chance(.5) ? 1 : r.chance(.2) ? (R)r.logu(1e-60, 1e60) : (R)r.logu(.01, 100); return rq(Q{q.w * k, q.x * k, q.y * k, q.z * k}); }
static void run(mon::Ctx& c) {
  auto& r = c.rng; const int K = 4; std::vector<std::unique_ptr<lib::Agent>> a(K); std::vector<Mod> m(K); std::string hist;
  auto make = [&](int i) { double mg = r.chance(.3) ? 0 : r.uni(0, 2); 
    switch (r.below(5)) {
      case 0: m[i] = Mod{V(), Q{}, V(), V(), 0}; a[i].reset(new lib::Agent()); hist += mon::fmt("%d=Agent(); ", i); break;
      case 1: m[i] = Mod{V(), Q{}, V(), V(), mg}; a[i].reset(new lib::Agent(mg)); hist += mon::fmt("%d=Agent(margin %g); ", i, mg); break;
      default: { V p = oddly(r, rd(randV(r, 20))); Q q = anyQ(r); V l = vel(r), w = oddly(r, rd(randV(r, 2))); m[i] = Mod{p, qunit(q), l, w, mg}; lib::State s(eig(p), eq(q), eig(l), eig(w)); if (r.chance(.5)) a[i].reset(new lib::Agent(s, mg)); else { a[i].reset(new lib::Agent(s)); m[i].m = 0; } hist += mon::fmt("%d=Agent(state,margin %g); ", i, m[i].m); } } c.cls("constructed"); };
  for (int i = 0; i < K; ++i) make(i);
  int steps = r.range(5, 25);
  for (int i = 0; i < K; ++i) judge(c, *a[i], m[i], hist, r, true);
  for (int s = 0; s < steps; ++s) {
    int i = r.below(K), j = r.below(K);
    switch (r.below(13)) {
      case 0: make(i); break;
      case 1: { V p = oddly(r, rd(randV(r, r.chance(.1) ? r.logu(1e-6, 1e4) : 20))); a[i]->set_position(eig(p)); m[i].pos = p; hist += mon::fmt("%d.set_position; ", i); c.cls("set_position"); break; }
      case 2: { Q q = anyQ(r); a[i]->set_orientation(eq(q)); m[i].q = qunit(q); hist += mon::fmt("%d.set_orientation; ", i); c.cls("set_orientation"); break; }
      case 3: { V v = vel(r); a[i]->set_linear_velocity(eig(v)); m[i].lin = v; hist += mon::fmt("%d.set_linear_velocity; ", i); c.cls("set_linear_velocity"); break; }
      case 4: { V v = vel(r); a[i]->set_angular_velocity(eig(v)); m[i].ang = v; hist += mon::fmt("%d.set_angular_velocity; ", i); break; }
      case 5: { V p = oddly(r, rd(randV(r, 20))); Q q = anyQ(r); a[i]->set_pose(lib::Pose(eig(p), eq(q))); m[i].pos = p; m[i].q = qunit(q); hist += mon::fmt("%d.set_pose; ", i); c.cls("set_pose"); break; }
      case 6: { double mg = r.chance(.3) ? r.uni(0, .1) : r.uni(0, 3); a[i]->set_safety_margin(mg); m[i].m = mg; hist += mon::fmt("%d.set_safety_margin(%g); ", i, mg); c.cls("set_safety_margin"); break; }
      case 7: { if (i == j) break; a[i].reset(new lib::Agent(*a[j])); m[i] = m[j]; hist += mon::fmt("%d=copy of %d; ", i, j); c.cls("copied"); break; }
      case 8: { *a[i] = *a[j]; m[i] = m[j]; hist += mon::fmt("%d assigned from %d; ", i, j); c.cls(i == j ? "self-assigned" : "assigned"); break; }
      case 9: case 10: { V p = oddly(r, rd(randV(r, 5))); Q q = anyQ(r); lib::Pose t(eig(p), eq(q)); Q u = qunit(q); V np = qrot(u, m[j].pos) + p; Q nq = qunit(qmul(u, m[j].q));
        if (r.chance(.5)) { a[j]->transform(t); i = j; hist += mon::fmt("%d.transform; ", j); c.cls("transform"); m[j].pos = np; m[j].q = nq; }
        else { lib::Agent b = a[j]->transformed(t); Mod mb = m[j]; mb.pos = np; mb.q = nq; hist += mon::fmt("%d=%d.transformed; ", i, j); judge(c, b, mb, hist, r, true); *a[i] = b; m[i] = mb; c.cls("transformed"); }
        m[i].pos = vec(a[i]->get_position()); if (dist(eig(np), m[i].pos) > 1e-11L * (1 + norm(np))) c.fail("transform", "transform moved the agent to %s expected %s; history %s", vs(m[i].pos).c_str(), vs(np).c_str(), hist.c_str());
        m[i].q = qunit(qof(a[i]->get_orientation())); if (qdist(nq, m[i].q) > 1e-11L) c.fail("transform", "transform turned the agent wrongly; history %s", hist.c_str());
        break; }
      case 11: { if (i == j) break; std::swap(*a[i], *a[j]); std::swap(m[i], m[j]); hist += mon::fmt("swap %d %d; ", i, j); c.cls("swapped"); break; }
      default: { std::vector<lib::Agent> v; v.push_back(*a[i]); v.push_back(*a[j]); v.push_back(*a[i]); v[0].set_position(E3(1, 2, 3)); *a[i] = v[2]; hist += mon::fmt("%d through a vector; ", i); c.cls("in a container"); } }
    for (int k = 0; k < K; ++k) judge(c, *a[k], m[k], hist, r, k == i);
    c.note((double)m[i].pos.x + (double)m[i].lin.x); }
  c.describe(hist);
}
int main(int a, char** v) { return mon::drive(a, v, "C08", run); }
