// C12: at the surface of an obstacle the modulated velocity has no component into it, relative to the obstacle's motion there.
#include "modu.hpp"
static void run(mon::Ctx& c) {
  auto& r = c.rng; SceneOpt o; o.planar = r.chance(.4); o.flat = !o.planar && r.chance(.1); o.where = 0; o.nmax = 6; o.nmin = r.chance(.4) ? 1 : 2; Scene sc; if (!randScene(r, o, sc)) c.skip();
  bool planarMod = r.chance(.35), local = r.chance(.2), rep = r.chance(.3); sc.pw = r.chance(.5) ? 2 : r.uni(.5, r.chance(.3) ? 9 : 4);
  double above = 0; if (r.chance(.2)) { sc.crit = 1 + 1e-5; }
  if (r.chance(.05)) sc.v = V(); if (r.chance(.15) && norm(sc.x - sc.S[0].ref) > .01L) sc.v = rd((R)-r.uni(.1, 2) * unit(sc.x - sc.S[0].ref)); else if (r.chance(.1)) { V g = sc.S[0].grad(sc.x, sc.m); if (norm(g) > 0) sc.v = rd((R)r.uni(-2, 2) * unit(g)); } 
  if (o.planar) sc.v.z = 0;
  Part p = part(sc.S[0], sc); if (p.rel > 1e-8L) c.skip();
  for (size_t i = 1; i < sc.S.size(); ++i) { Part q = part(sc.S[i], sc); if (q.d <= sc.crit + 1e-3) c.skip(); if (rep && q.d < 1.1001L) rep = false; if (q.rel > 1e-6L || (!planarMod && q.c < 1e-3L)) c.skip(); }
  c.describe(sc.str() + mon::fmt(" planar_modulation %d local %d repulsion %d", planarMod, local, rep));
  bool agg = o.planar && sc.S.size() > 1 && r.chance(.3);
  if (agg) { for (size_t i = 0; i < sc.S.size(); ++i) for (size_t j = 0; j < i; ++j) if (mustIntersect(foot(sc.S[i]), foot(sc.S[j])) != 0) agg = false; }
  std::vector<std::shared_ptr<lib::Ellipsoid>> O; auto env = buildEnv(sc, r, agg, &O); auto a = agentOf(sc, r);
  V out = vec(lib::Modulation::modulate_velocity(a, env, local, rep, planarMod, sc.crit, sc.pw));
  // the reference points that were used
  bool graze = false; for (size_t i = 0; i < sc.S.size(); ++i) { V ref = vec(O[i]->get_reference_position()); V d = sc.x - ref; if (norm(d) < 1e-3L) graze = true; else { Part q = part(sc.S[i], sc); if (std::fabs(dot(unit(d), q.n)) < (i ? 1e-3L : .02L)) graze = true; } }
  if (graze) { c.cls("grazing reference direction (left out)"); c.skip(); }
  V rel = out - p.vel, relv = sc.v - p.vel; R sp = norm(relv) + norm(p.vel) + norm(sc.v);
  V dref = sc.x - vec(O[0]->get_reference_position()); R cs = std::fabs(dot(p.n, unit(dref))), into = dot(p.n, rel), tol = (1e-6L + 1e-10L / (cs * cs) + 1e-5L * (sc.crit > 1)) * sp / cs + 1e-12L;
  // in local mode the region always meets the obstacle: the agent touches it (plan view) only for planar scenes
  if (local && !o.planar) c.skip();
  if (local && sc.m > 0) { V k = sc.S[0].L(V()); if (mustIntersect(Foot{sc.x.x, sc.x.y, .1L, .1L, 0}, foot(sc.S[0])) != 1) c.skip(); }
  if (local) { R nv = norm(sc.v); V ctr = sc.x; if (nv > 0) ctr = ctr + (R)(.5L / nv) * sc.v; Foot f{ctr.x, ctr.y, (nv > 0 ? .5L : 0) + std::max((R).1, (R)sc.m), std::max((R).1, (R)sc.m), nv > 0 ? std::atan2(sc.v.y, sc.v.x) : 0}; if (mustIntersect(f, foot(sc.S[0])) != 1) c.skip(); c.cls("local mode"); }
  c.check(std::isfinite((double)into), "finite", "component along the normal is not finite");
  c.check(into >= -tol, "into-obstacle", "modulated velocity %s goes into %s: component %.9Lg along the outward normal relative to its motion (desired %.9Lg, tolerance %.3Lg)", vs(out).c_str(), sc.S[0].name.c_str(), into, dot(p.n, relv), tol);
  if (!rep) c.check(into <= tol, "off-tangent", "modulated velocity %s leaves %s: component %.9Lg along the outward normal relative to its motion (tolerance %.3Lg)", vs(out).c_str(), sc.S[0].name.c_str(), into, tol);
  c.cls(o.planar ? "plane" : "space"); c.cls(sc.S.size() > 1 ? "other obstacles around" : "one obstacle"); if (planarMod) c.cls("planar modulation"); if (rep) c.cls("repulsion"); if (norm(p.vel) > 0) c.cls("moving obstacle"); if (norm(sc.S[0].ang) > 0) c.cls("turning obstacle"); if (dot(p.n, relv) < -.1L * sp) c.cls("heading into the obstacle"); if (sc.m > 0) c.cls("agent margin"); if (agg) c.cls("aggregating environment"); if (cs < .7L) c.cls("oblique reference direction");
  (void)above; c.note((double)into); c.note((double)out.x); c.note((double)sc.x.x);
}
int main(int a, char** v) { return mon::drive(a, v, "C12", run); }
