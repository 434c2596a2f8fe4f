// C15: the blend of several obstacles, against an independent computation (ellipsoids) and against the composition of the library's own matrices (with aggregates).
#include "modu.hpp"
static void full(mon::Ctx& c) {
  auto& r = c.rng; SceneOpt o; o.planar = r.chance(.3); o.flat = !o.planar && r.chance(.1); o.nmax = 6; o.where = r.chance(.1) ? 0 : r.range(1, 3); Scene sc; if (!randScene(r, o, sc)) c.skip(); if (r.chance(.5)) { sc.crit = r.uni(.3, r.chance(.2) ? 12 : 3); } if (r.chance(.5)) sc.pw = r.uni(.5, 5);
  std::vector<std::shared_ptr<lib::Ellipsoid>> O; auto env = buildEnv(sc, r, false, &O); auto a = agentOf(sc, r);
  for (int more = r.chance(.3) ? r.range(1, 4) : 0, round = 0;; --more, ++round) {
  if (round) { std::string what; switch (r.below(6)) {
      case 0: sc.x = rd(sc.x + randV(r, .5)); if (o.planar) sc.x.z = 0; a.set_position(eig(sc.x)); what = "agent moved"; break; case 1: sc.v = randVel(r, o.planar); a.set_linear_velocity(eig(sc.v)); what = "agent velocity"; break;
      case 2: if (r.chance(.5)) { sc.m = r.uni(0, .5); a.set_safety_margin(sc.m); what = "agent margin"; } else { sc.crit = r.uni(.3, r.chance(.3) ? 12 : 3); sc.pw = r.uni(.5, r.chance(.3) ? 9 : 5); what = "parameters"; } break;
      default: { int i = r.below(sc.S.size()); what = "obstacle " + sc.S[i].name + " " + tweak(sc.S[i], *O[i], r, o.planar); if (r.chance(.3)) env.update(); } }
    c.describe(" then " + what + ": "); c.cls("called again after one thing changed"); }
  bool pl = r.chance(.15); V out; // with planar modulation: about the reference points it has just set (C17 judges those)
  if (pl) { c.describe(" planar "); out = vec(lib::Modulation::modulate_velocity(a, env, false, false, true, sc.crit, sc.pw)); for (size_t i = 0; i < O.size(); ++i) sc.S[i].ref = vec(O[i]->get_reference_position()); }
  c.describe(sc.str()); Out e = expect(sc); if (!e.ok) { c.cls("left out: " + e.why); if (!round && !more) c.skip(); if (!more) break; continue; }
  bool defs = sc.crit == 1 && sc.pw == 2 && r.chance(.5);
  if (pl) c.cls("planar modulation"); else out = vec(defs ? lib::Modulation::modulate_velocity(a, env) : lib::Modulation::modulate_velocity(a, env, false, false, false, sc.crit, sc.pw));
  c.check(norm(out - e.v) <= e.tol, "blend", "modulated velocity %s expected %s (error %.3Lg, tolerance %.3Lg)", vs(out).c_str(), vs(e.v).c_str(), norm(out - e.v), e.tol);
  R sp = norm(out - e.u); c.check(std::fabs(sp - e.speed) <= e.tol, "magnitude", "speed relative to the obstacles %.12Lg expected the weighted mean %.12Lg", sp, e.speed);
  c.cls(sc.S.size() == 1 ? "one obstacle" : "several obstacles"); int nw = 0; for (R w : e.w) nw += w > .02L; if (nw > 1) c.cls("several with weight"); if (e.critical > 1) c.cls("several critical"); else if (e.critical == 1) c.cls("one critical"); else c.cls("none critical"); if (norm(e.u) > .01L) c.cls("moving obstacles"); if (e.phi > 1) c.cls("turned by more than one radian"); if (e.phi < 1e-3L) c.cls("hardly turned"); c.note((double)out.x); c.note((double)out.y);
  if (!more) break; }
}
static void hybrid(mon::Ctx& c) {
  auto& r = c.rng; SpecOpt so; so.planar = true; so.moving = true; so.box = r.uni(2, 8); int n = r.range(2, 7); auto names = shuffledNames(r, n); Scene sc; lib::Environment env(true);
  for (int i = 0; i < n; ++i) { sc.S.push_back(randSpec(r, names[i], so)); env.add_obstacle(build(sc.S.back(), r)); } env.update();
  sc.x = rd(randV(r, so.box + 3)); sc.x.z = 0; sc.v = randVel(r, true); sc.m = r.chance(.5) ? 0 : r.uni(0, .5); sc.crit = r.chance(.5) ? 1 : r.uni(.3, r.chance(.3) ? 12 : 3); sc.pw = r.chance(.5) ? 2 : r.uni(.5, r.chance(.3) ? 9 : 4); auto a = agentOf(sc, r); c.describe(sc.str()); bool pl = r.chance(.2); V out; if (pl) { c.describe(" planar"); out = vec(lib::Modulation::modulate_velocity(a, env, false, false, true, sc.crit, sc.pw)); }
  auto L = env.get_obstacle_list(); std::vector<Eigen::Matrix3d> M; std::vector<R> d; bool hasAgg = false; Out o; R lever = 1e-12L;
  for (auto& ob : L) { auto t = lib::Modulation::compute_modulation_matrix(a, *ob); M.push_back(std::get<0>(t)); d.push_back(std::get<2>(t)); if (!M.back().allFinite() || M.back().norm() > 1e3) c.skip(); if (std::fabs(d.back() - sc.crit) < 1e-6L) c.skip(); hasAgg |= ob->get_type() == "Aggregate"; lever = std::max(lever, 1e-12L * M.back().norm()); }
  if (!hasAgg && r.chance(.7)) c.skip();
  o.w = weightsOf(d, sc.crit, sc.pw); lever += 1e-9L;
  for (size_t i = 0; i < L.size(); ++i) { V vel = vec(L[i]->get_linear_velocity()) + cross(vec(L[i]->get_angular_velocity()), sc.x - vec(L[i]->get_position())); o.u = o.u + (o.w[i] * std::exp(-(std::max((R)1, d[i]) - 1))) * vel; }
  o.rel = sc.v - o.u; if (norm(o.rel) < 1e-6L * (norm(sc.v) + norm(o.u))) c.skip(); std::vector<V> m; for (auto& X : M) { V q; for (int i = 0; i < 3; ++i) q[i] = (R)X(i, 0) * o.rel.x + (R)X(i, 1) * o.rel.y + (R)X(i, 2) * o.rel.z; m.push_back(q); }
  blend(o, m, lever); if (!o.ok) { c.cls("left out: " + o.why); c.skip(); }
  if (!pl) out = vec(lib::Modulation::modulate_velocity(a, env, false, false, false, sc.crit, sc.pw));
  c.check(norm(out - o.v) <= o.tol, "blend-aggregates", "with %d list entries the modulated velocity is %s, composing the library's own matrices gives %s (error %.3Lg)", (int)L.size(), vs(out).c_str(), vs(o.v).c_str(), norm(out - o.v));
  if (hasAgg) c.cls("aggregate in the list"); if (hasAgg && L.size() > 1) c.cls("aggregate among others"); c.note((double)out.x);
}
static void blendedVelocity(mon::Ctx& c) {  // the public helper for relative velocities
  auto& r = c.rng; SceneOpt o; o.nmax = 5; Scene sc; if (!randScene(r, o, sc)) c.skip(); c.describe(sc.str()); auto a = agentOf(sc, r); std::deque<std::shared_ptr<lib::Obstacle>> L; std::deque<Eigen::Matrix3d> B; int n = sc.S.size(); Eigen::ArrayXd D(n), W(n); V u; 
  for (int i = 0; i < n; ++i) { auto p = build(sc.S[i], r); L.push_back(p); auto t = lib::Modulation::compute_modulation_matrix(a, *p); Part q = part(sc.S[i], sc); if (q.rel > 1e-8L) c.skip(); B.push_back(std::get<1>(t)); D(i) = r.chance(.3) ? r.uni(.2, 1) : r.uni(1, 6); W(i) = r.uni(0, 1); u = u + ((R)W(i) * std::exp(-(std::max((R)1, (R)D(i)) - 1))) * q.vel; }
  auto res = lib::Modulation::compute_relative_velocities(a, L, D, W, B); R sc1 = 1 + norm(u) + norm(sc.v);
  for (auto& s : sc.S) sc1 += norm(s.lin) + norm(s.ang) * norm(sc.x - s.pos);
  c.check(norm(vec(res.second) - u) <= 1e-9L * sc1, "obstacle-velocity", "blended obstacle velocity %s expected %s", vs(vec(res.second)).c_str(), vs(u).c_str());
  c.check(norm(vec(res.first) - (sc.v - u)) <= 1e-9L * sc1, "relative-velocity", "relative velocity %s expected %s", vs(vec(res.first)).c_str(), vs(sc.v - u).c_str()); c.cls("blended velocity helper"); c.note((double)u.x);
}
static void run(mon::Ctx& c) { int k = c.rng.below(16); if (k == 0) hybrid(c); else if (k == 1) blendedVelocity(c); else full(c); }
int main(int a, char** v) { return mon::drive(a, v, "C15", run); }
