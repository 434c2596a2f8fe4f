// C23: closed-loop motion, judged over whole trajectories.
#include "modu.hpp"
#include "hull.hpp"
static R nearest(const Scene& sc, V x) { R b = 1e30L; for (auto& s : sc.S) b = std::min(b, s.level(x, sc.m)); return b; }
static R reach(const Spec& s) { return norm(s.len + s.margin); }
static void avoid(mon::Ctx& c) {
  auto& r = c.rng; bool pl = r.chance(.5); int mode = r.below(3); bool mov = mode == 2, rep = r.chance(.3), pm = pl && r.chance(.15), loc = false; int n = mode == 0 ? 1 : r.range(2, 5);
  SpecOpt so; so.planar = pl; so.moving = mov; so.curved = r.chance(.4); so.box = 4; so.lmin = .4; so.lmax = 1.5; Scene sc; sc.m = r.chance(.5) ? 0 : r.uni(0, .3);
  for (int i = 0; i < n; ++i) for (int t = 0; t < 60; ++t) { Spec s = randSpec(r, mon::fmt("o%d", i), so); if (mov) { s.lin = rd(.4L * s.lin); s.ang = rd(.5L * s.ang); } bool ok = true; for (auto& q : sc.S) ok &= norm(q.pos - s.pos) >= reach(q) + reach(s) + 2 * sc.m + .2L; if (ok) { sc.S.push_back(s); break; } }
  if (mode && sc.S.size() < 2) c.skip();
  V g; int t = 0; do { sc.x = rd(randV(r, 7)); if (pl) sc.x.z = 0; } while (nearest(sc, sc.x) < 1.1L && ++t < 50); do { g = rd(randV(r, 7)); if (pl) g.z = 0; } while ((nearest(sc, g) < 1.3L || norm(g - sc.x) < 3) && ++t < 100); if (t >= 100) c.skip();
  if (r.chance(.7)) { const Spec& q = sc.S[r.below(sc.S.size())]; g = rd(q.pos + r.uni(.5, 1.5) * (q.pos - sc.x) + r.uni(0, .5) * randV(r, 1)); if (pl) g.z = 0; if (r.chance(.3)) { sc.x = rd(pointAtLevel(q, dirFor(r, q, q.L(V()), pl), 1 + r.logu(1e-6, 1), V(sc.m, sc.m, sc.m))); if (pl) sc.x.z = 0; } if (nearest(sc, g) < 1.3L || nearest(sc, sc.x) < 1 || norm(g - sc.x) < 1) c.skip(); }
  c.describe(sc.str() + mon::fmt(" goal %s repulsion %d planar %d local %d", vs(g).c_str(), rep, pm, loc));
  lib::Environment env(false); std::vector<std::shared_ptr<lib::Ellipsoid>> O; for (auto& s : sc.S) { O.push_back(build(s, r)); env.add_obstacle(O.back()); } env.update();
  const double dt = .002; lib::Agent a = buildAgent(r, sc.x, V(), sc.m); V x = sc.x; R closest = 1e30L, longest = 0; int step, N = mov ? 5000 : 30000; bool there = false, apart = true, near = false;
  for (step = 0; step < N && !there && apart; ++step) {
    V d = g - x; R dn = norm(d); if (!mov && dn < .05L) { there = true; break; } V v = dn > 1 || mov ? (1 / dn) * d : d; if (!(dn > 1e-6L)) break; a.set_position(eig(x)); a.set_linear_velocity(eig(v)); E3 u = lib::Modulation::modulate_velocity(a, env, loc, rep, pm);
    c.check(finite3(u), "finite", "velocity not finite at step %d, position %s", step, vs(x).c_str()); x = rd(x + (R)dt * vec(u)); longest = std::max(longest, norm(vec(u)));
    if (mov) { for (size_t i = 0; i < sc.S.size(); ++i) { Spec& s = sc.S[i]; V rl = s.local(s.ref); s.pos = rd(s.pos + (R)dt * s.lin); R w = norm(s.ang); if (w > 0) s.q = rq(qunit(qmul(qaxis(s.ang, w * dt), s.q))); s.ref = rd(s.world(rl)); O[i]->set_position(eig(s.pos)); O[i]->set_orientation(eq(s.q)); O[i]->set_reference_position(eig(s.ref)); }
      for (size_t i = 0; i < sc.S.size(); ++i) for (size_t j = 0; j < i; ++j) apart &= norm(sc.S[i].pos - sc.S[j].pos) >= reach(sc.S[i]) + reach(sc.S[j]) + 2 * sc.m + .1L; if (!apart) break; }
    R l = nearest(sc, x); closest = std::min(closest, l); near |= l < 1.5L;
    c.check(l > .98L, "entered", "at step %d the agent is inside an obstacle (level %.6Lf) at %s", step, l, vs(x).c_str()); }
  // the only stationary point without planar modulation: exactly behind the reference point
  if (mode == 0 && !pm) { R col = dot(unit(sc.x - sc.S[0].ref), unit(sc.S[0].ref - g)); if (col < 1 - 1e-6L) { c.check(there, "goal", "after %d steps the agent is still at %.4Lg from the goal (%s)", step, norm(g - x), vs(x).c_str()); c.cls("goal reached past one obstacle"); if (near) c.cls("goal reached after a near pass"); } }
  c.cls(mode == 0 ? "one static obstacle" : mode == 1 ? "several static obstacles" : "moving obstacles"); c.cls(pl ? "plane" : "space"); if (near) c.cls("near pass"); if (closest < 1.05L) c.cls("touching pass"); if (rep) c.cls("repulsion"); if (pm) c.cls("planar modulation"); c.note((double)x.x); c.note((double)x.y); c.note(step); }
static void room(mon::Ctx& c) {
  auto& r = c.rng; int n = r.range(4, 7); R h = r.uni(2.5, 8), t = r.uni(.3, .8), rot = r.uni(-3, 3), over = r.uni(1.15, 1.5); V at = rd(randV(r, 6)); at.z = 0; Scene sc; sc.m = r.chance(.5) ? 0 : r.uni(0, .2);
  for (int i = 0; i < n; ++i) { Spec s; s.name = mon::fmt("w%d", i); R a = rot + 2 * PI * i / n; s.pos = rd(at + V(h * std::cos(a), h * std::sin(a), 0)); s.q = rq(qyaw(a + PI / 2)); s.len = rd(V(h * std::tan(PI / n) * over + t, t, 1)); if (r.chance(.3)) s.margin = V(.1, .1, .1); s.ref = s.pos; sc.S.push_back(s); }
  lib::Environment env(true); for (auto& s : sc.S) env.add_obstacle(build(s, r)); env.update(); if (env.get_obstacle_list().size() != 1) c.skip(); auto A = std::static_pointer_cast<lib::Aggregate>(env.get_obstacle_list()[0]); if (!A->is_closed()) c.skip();
  V x = rd(at + (h - t) * r.uni(0, .8) * unit(V(r.gauss(), r.gauss(), 0))); x.z = 0; bool rep = r.chance(.7); lib::Agent a = buildAgent(r, x, V(), sc.m); const double dt = .002; V g = rd(at + randV(r, 15)); g.z = 0; c.describe(sc.str() + mon::fmt(" from %s repulsion %d", vs(x).c_str(), rep)); R mx = -1e30L;
  for (int k = 0; k < 6000; ++k) { if (r.below(1500) == 0) { g = rd(at + randV(r, 15)); g.z = 0; } V d = g - x; R dn = norm(d); V v = dn > 1 ? (1 / dn) * d : d; a.set_position(eig(x)); a.set_linear_velocity(eig(v)); E3 u = lib::Modulation::modulate_velocity(a, env, false, rep, false); c.check(finite3(u), "finite", "velocity not finite at step %d", k); x = rd(x + (R)dt * vec(u));
    for (int i = 0; i < n; ++i) { R an = rot + 2 * PI * i / n, ex = ((x.x - at.x) * std::cos(an) + (x.y - at.y) * std::sin(an) - h) / t; mx = std::max(mx, ex); c.check(ex < -.5L, "left-room", "at step %d the agent has got to %.3Lf half-thicknesses from the middle line of wall %d, at %s", k, ex, i, vs(x).c_str()); } }
  c.cls(rep ? "room with repulsion" : "room without repulsion"); if (mx > -1.6L) c.cls("at the wall of a room"); c.note((double)x.x); c.note((double)x.y); }
// a cluster of ellipses that all contain one point, aggregated: the agent goes round it and reaches the goal
static void star(mon::Ctx& c) {
  auto& r = c.rng; int n = r.range(2, 4); Scene sc; sc.m = 0; SpecOpt so; so.planar = true; so.curved = false; so.lmin = .6; so.lmax = 2; so.box = r.uni(.3, 1.2); bool rep = r.chance(.3); V off = rd(randV(r, 5)); off.z = 0;
  for (int i = 0; i < n; ++i) { Spec s = randSpec(r, mon::fmt("o%d", i), so); s.pos = rd(s.pos + off); s.ref = s.pos; s.lin = V(); s.ang = V(); sc.S.push_back(s); }
  V mean; for (auto& s : sc.S) mean = mean + (1 / (R)n) * s.pos; for (auto& s : sc.S) if (fval(foot(s), mean.x, mean.y) > .8L) c.skip();
  lib::Environment env(true); for (auto& s : sc.S) env.add_obstacle(build(s, r)); env.update(); if (env.get_obstacle_list().size() != 1) c.skip();
  HullOracle h; for (auto& s : sc.S) h.F.push_back(foot(s)); h.rx = mean.x; h.ry = mean.y; h.inner = false; h.minr = .5; R lo, hi, gap; h.survey(lo, hi, gap); if (lo < .6L) c.skip();
  auto lev = [&](V x) { R rho = std::hypot(x.x - h.rx, x.y - h.ry); return rho / h.radius(std::atan2(x.y - h.ry, x.x - h.rx)); };
  V g, x; int t = 0; do { x = rd(off + randV(r, 7)); x.z = 0; } while (lev(x) < 1.1L && ++t < 50); do { g = rd(r.chance(.7) ? mean + r.uni(.5, 1.5) * (mean - x) + .8L * randV(r, 1) : off + randV(r, 7)); g.z = 0; } while ((lev(g) < 1.3L || norm(g - x) < 2) && ++t < 100); if (t >= 100) c.skip();
  // heading almost straight for the reference point, a dent of the outline can hold the agent up
  if (dot(unit(x - mean), unit(mean - g)) > .95L) c.skip();
  c.describe(sc.str() + mon::fmt(" from %s goal %s repulsion %d", vs(x).c_str(), vs(g).c_str(), rep)); lib::Agent a = buildAgent(r, x, V(), 0); const double dt = .002; bool there = false; R mn = 9; V x0 = x;
  for (int k = 0; k < 30000 && !there; ++k) { V d = g - x; R dn = norm(d); if (dn < .05L) { there = true; break; } V v = dn > 1 ? (1 / dn) * d : d; a.set_position(eig(x)); a.set_linear_velocity(eig(v)); E3 u = lib::Modulation::modulate_velocity(a, env, false, rep, false); c.check(finite3(u), "finite", "velocity not finite at step %d", k); x = rd(x + (R)dt * vec(u)); R l = lev(x); mn = std::min(mn, l); c.check(l > .95L, "entered-aggregate", "at step %d the agent is inside the aggregate (level %.6Lf of its outline) at %s", k, l, vs(x).c_str()); }
  c.check(there, "goal-aggregate", "the agent is still at %.4Lg from the goal (%s)", norm(g - x), vs(x).c_str()); c.cls(rep ? "round an aggregate with repulsion" : "round an aggregate"); if (mn < 1.3L) c.cls("near pass of an aggregate"); c.note((double)x0.x); c.note((double)g.x); }
static void run(mon::Ctx& c) { R k = c.rng.unit(); if (k < .12L) room(c); else if (k < .3L) star(c); else avoid(c); }
int main(int a, char** v) { return mon::drive(a, v, "C23", run); }
