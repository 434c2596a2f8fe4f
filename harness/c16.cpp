// C16: repulsion of single obstacles and inside the modulation.
#include "modu.hpp"
static void single(mon::Ctx& c) {
  auto& r = c.rng; SceneOpt o; o.nmin = o.nmax = 1; o.planar = r.chance(.3); o.flat = !o.planar; o.where = r.range(0, 3); Scene sc; if (!randScene(r, o, sc)) c.skip(); if (r.chance(.15)) sc.v = r.chance(.5) ? V() : V(0, 0, sc.v.z); c.describe(sc.str()); auto e = build(sc.S[0], r); auto a = agentOf(sc, r); R d = sc.S[0].level(sc.x, sc.m); if (d < 1e-6L) c.skip(); R dr = 1e-9L * (1 + 1 / d);
  double th = r.chance(.3) ? 1.1 : r.chance(.1) ? r.range(0, 3) : r.chance(.5) ? (double)d * r.uni(.3, 3) : r.uni(0, 5); V off = sc.x - sc.S[0].ref;
  V got = vec(e->compute_repulsion_vector(a)); c.check(norm(got - (2 / d) * off) <= dr * 2 / d * norm(off) + 1e-12L, "ellipsoid-vector", "repulsion vector %s expected %s at distance %.9Lg", vs(got).c_str(), vs((2 / d) * off).c_str(), d);
  if (std::fabs(d - th) > 1e-9L * (1 + d)) { bool def = r.chance(.2); double t = def ? 1.1 : th; if (std::fabs(d - t) > 1e-9L * (1 + d)) { V g = vec(def ? e->generate_repulsion(a) : e->generate_repulsion(a, t)); V want = d < t ? (2 / d) * off : V(); c.check(norm(g - want) <= dr * norm(want) + (d < t ? 1e-12L : 0), "ellipsoid-threshold", "repulsion %s expected %s: distance %.9Lg threshold %.9g", vs(g).c_str(), vs(want).c_str(), d, t); c.cls(d < t ? "ellipsoid below the threshold" : "ellipsoid at or above the threshold"); if (d < t && t > 1.1 && d > 1.1L) c.cls("own threshold"); } }
  double ex = std::get<0>(std::make_tuple(e->compute_distance_to_agent(a))); V g = vec(e->generate_repulsion(a, ex)); c.check(norm(g) == 0, "ellipsoid-at-threshold", "distance equal to the threshold still repels: %s", vs(g).c_str());
  double fct = r.chance(.1) ? 0 : r.chance(.15) ? -r.uni(.1, 30) : r.uni(.1, 30); c.near(e->get_repulsion_factor(a, fct), (double)(fct / d), (double)(dr * std::fabs(fct) / d), "factor", "repulsion factor"); c.near(e->get_repulsion_factor(a), (double)(2 / d), (double)(dr * 2 / d), "factor", "default repulsion factor"); c.note((double)d); c.note((double)got.x);
}
static std::shared_ptr<lib::Aggregate> group(mon::Rng& r, Scene& sc, bool room) {
  std::deque<std::shared_ptr<lib::Obstacle>> O; sc = Scene(); sc.m = r.chance(.5) ? 0 : r.uni(0, .4);
  if (room) { double h = r.uni(3, 8), t = r.uni(.3, .8); int k = 0; for (int i = 0; i < 4; ++i) { Spec s; s.name = mon::fmt("w%d", k++); R a = i * PI / 2; s.pos = rd(V(h * std::cos(a), h * std::sin(a), 0)); s.q = rq(qyaw(a + PI / 2)); s.len = rd(V(h * 1.3L, t, 1)); s.ref = s.pos; sc.S.push_back(s); } }
  else { SpecOpt so; so.planar = true; so.box = r.uni(.5, 3); so.curved = false; int n = r.chance(.1) ? 1 : r.range(2, 5); for (int i = 0; i < n; ++i) sc.S.push_back(randSpec(r, mon::fmt("p%d", i), so)); }
  if (r.chance(.3)) { V sh = rd(randV(r, r.uni(5, 60))); sh.z = 0; for (auto& s : sc.S) { s.pos = rd(s.pos + sh); s.ref = rd(s.ref + sh); } } if (r.chance(.1)) sc.m = r.uni(1, 2);
  for (auto& s : sc.S) O.push_back(build(s, r)); return std::make_shared<lib::Aggregate>(O); }
static void agg(mon::Ctx& c) {
  auto& r = c.rng; Scene sc; auto A = group(r, sc, r.chance(.4)); c.describe(sc.str()); if (r.chance(.4)) { A->set_reference_position(eig(rd(vec(A->get_reference_position()) + V(r.uni(-.5, .5), r.uni(-.5, .5), 0)))); if (r.chance(.7)) A->update_hull(); c.cls("aggregate with a moved reference"); } V ref = vec(A->get_reference_position());
  for (int i = 0; i < 12; ++i) { sc.x = oddly(r, rd(ref + randV(r, r.uni(1, 9)))); sc.x.z = ref.z; sc.v = randVel(r, true); auto a = agentOf(sc, r); double d = A->compute_distance_to_agent(a); bool in = A->point_is_inside(eig(sc.x)); V off = sc.x - ref; if (norm(off) < 1e-3L || !(d > 1e-6)) continue;
    V want = (R)(in ? -1 : 1) * (20 / (R)d) * off, got = vec(A->compute_repulsion_vector(a)); c.check(norm(got - want) <= 1e-10L * norm(want), "aggregate-vector", "aggregate repulsion %s expected %s (%s, distance %.9g)", vs(got).c_str(), vs(want).c_str(), in ? "inside" : "outside", d);
    double th = r.chance(.4) ? 1.1 : r.chance(.1) ? r.range(0, 3) : d * r.uni(.5, 2); if (std::fabs(th - d) < 1e-9) continue; V g = vec(A->generate_repulsion(a, th)); if (d >= th) want = V(); c.check(norm(g - want) <= 1e-10L * norm(want), "aggregate-threshold", "aggregate repulsion %s expected %s: distance %.9g threshold %.9g", vs(g).c_str(), vs(want).c_str(), d, th); c.cls(mon::fmt("aggregate %s, %s", in ? "inside" : "outside", d < th ? "below the threshold" : "above the threshold")); c.note(d); }
}
static void inModulation(mon::Ctx& c) {
  auto& r = c.rng; bool withAgg = r.chance(.2); Scene sc; lib::Environment env(withAgg); std::vector<std::shared_ptr<lib::Ellipsoid>> O;
  if (withAgg) { auto A = group(r, sc, r.chance(.5)); for (auto& s : sc.S) env.add_obstacle(build(s, r)); env.update(); V mid; for (auto& s : sc.S) mid = mid + (1.0L / sc.S.size()) * s.pos; sc.x = rd(mid + randV(r, 8)); sc.x.z = 0; sc.v = randVel(r, true); }
  else { SceneOpt o; o.planar = r.chance(.4); o.nmax = 5; o.where = r.range(0, 2); if (!randScene(r, o, sc)) c.skip(); if (r.chance(.4)) { for (size_t i = 1; i < sc.S.size(); ++i) if (r.chance(.5)) { Spec& t = sc.S[i]; V np = rd(pointAtLevel(t, dirFor(r, t, t.L(V()), o.planar), r.uni(.3, 1.2), V(sc.m, sc.m, sc.m))); V sh = rd(sc.x - np); if (o.planar) sh.z = 0; t.pos = rd(t.pos + sh); t.ref = rd(t.ref + sh); } } env = buildEnv(sc, r); }
  bool pl = r.chance(.25) && !withAgg; if (r.chance(.3)) sc.crit = r.uni(.5, 2); if (r.chance(.3)) sc.pw = r.chance(.3) ? r.range(1, 6) : r.uni(.3, 6); auto a = agentOf(sc, r); c.describe(sc.str() + mon::fmt(" planar_modulation %d", pl)); V sum; int act = 0;
  E3 without = lib::Modulation::modulate_velocity(a, env, false, false, pl, sc.crit, sc.pw); E3 again = lib::Modulation::modulate_velocity(a, env, false, false, pl, sc.crit, sc.pw);
  c.check(dist(without, vec(again)) <= 1e-9L * (1 + norm(vec(without))) || pl, "repeat", "two calls differ");
  for (auto& ob : env.get_obstacle_list()) { R d; V off = sc.x - vec(ob->get_reference_position()); if (ob->get_type() == "Ellipsoid") { const Spec* s = 0; for (auto& t : sc.S) if (t.name == ob->get_name()) s = &t; d = s->level(sc.x, sc.m); if (d < 1e-5L || std::fabs(d - 1.1L) < 1e-9L) c.skip(); if (d < 1.1L) { sum = sum + (2 / d) * off; ++act; } }
    else { d = ob->compute_distance_to_agent(a); bool in = ob->point_is_inside(eig(sc.x)); if (!(d > 1e-5L) || std::fabs(d - 1.1L) < 1e-9L || norm(off) < 1e-3L) c.skip(); if (d < 1.1L) { sum = sum + (R)(in ? -1 : 1) * (20 / d) * off; ++act; } } }
  if (act && norm(sum) < 2e-4L) c.skip(); E3 with = lib::Modulation::modulate_velocity(a, env, false, true, pl, sc.crit, sc.pw); if (!finite3(with) || !finite3(without)) c.fail("finite", "velocity not finite"); if (norm(vec(without)) == 0) c.skip();
  R scl = norm(vec(without)) + norm(sum); c.check(norm(vec(with) - vec(without) - sum) <= 1e-8L * scl, "sum", "with repulsion %s, without %s, difference %s expected %s (%d obstacles within 1.1)", vs(vec(with)).c_str(), vs(vec(without)).c_str(), vs(vec(with) - vec(without)).c_str(), vs(sum).c_str(), act);
  c.cls(act == 0 ? "modulation without repelling obstacle" : act == 1 ? "modulation with one repelling obstacle" : "modulation with several repelling obstacles"); if (withAgg) c.cls("modulation with repelling aggregates"); c.note((double)sum.x); c.note((double)with(0));
}
static void run(mon::Ctx& c) { int k = c.rng.below(20); if (k == 0) agg(c); else if (k < 10) single(c); else inModulation(c); }
int main(int a, char** v) { dressUp() = 1; return mon::drive(a, v, "C16", run); }
