// C13: nothing near, nothing changed; bounded influence of static obstacles; no spurious stop.
#include "modu.hpp"
static bool same(const E3& a, const E3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
struct Flags { bool local, rep, pl; double crit, pw; };
static Flags flags(mon::Rng& r) { return Flags{r.chance(.5), r.chance(.5), r.chance(.5), r.chance(.5) ? 1 : r.uni(.2, 3), r.chance(.5) ? 2 : r.chance(.2) ? r.uni(4, 16) : r.uni(.5, 4)}; }
static E3 call(const lib::Agent& a, const lib::Environment& e, const Flags& f) { return lib::Modulation::modulate_velocity(a, e, f.local, f.rep, f.pl, f.crit, f.pw); }
static void empty(mon::Ctx& c) {
  auto& r = c.rng; Scene sc; SceneOpt o; if (!randScene(r, o, sc)) c.skip(); if (r.chance(.1)) sc.v = V(); auto a = agentOf(sc, r); Flags f = flags(r); c.describe(sc.str());
  int k = r.below(4); lib::Environment e(r.chance(.5));
  if (k == 1) { for (auto& s : sc.S) e.add_obstacle(build(s, r)); c.cls("obstacles not yet updated"); }
  else if (k == 2) { for (auto& s : sc.S) e.add_obstacle(build(s, r)); e.update(); for (auto& s : sc.S) e.remove_obstacle(s.name); e.update(); c.cls("all obstacles removed"); }
  else if (k == 3) { e.update(); c.cls("empty environment"); }
  E3 out = call(a, e, f); c.check(same(out, eig(sc.v)), "empty", "no obstacle in the list, desired %s modulated %s", vs(sc.v).c_str(), vs(vec(out)).c_str()); c.note((double)sc.v.x);
  if (k == 2 && sc.S.size() > 0) { for (auto& s : sc.S) e.add_obstacle(build(s, r)); call(a, e, f); }
}
static void localMode(mon::Ctx& c) {
  auto& r = c.rng; bool aggregated = r.chance(.4); SceneOpt o; o.planar = true; o.nmax = 5; o.where = r.range(1, 3); Scene sc; if (!randScene(r, o, sc)) c.skip(); bool space = r.chance(.3); if (space) { sc.x.z = r.uni(-3, 3); sc.v.z = r.uni(-1, 1); sc.x = rd(sc.x); sc.v = rd(sc.v); } if (r.chance(.1)) sc.v = V();
  if (r.chance(.5)) { // put the agent so that the region just meets or just misses an obstacle
    Foot f = foot(sc.S[0]); R th = r.uni(0, 6.283), px, py; onContour(f, th, px, py); R out = r.uni(-.3, 1.2); R dx = px - f.x, dy = py - f.y, n = std::hypot(dx, dy); sc.x.x = px + out * dx / n; sc.x.y = py + out * dy / n; sc.x = rd(sc.x); }
  R nv = norm(sc.v); V ctr = sc.x + (nv > 0 ? (R)(.5L / nv) * sc.v : V()); Foot g{ctr.x, ctr.y, (nv > 0 ? .5L : 0) + std::max((R).1, (R)sc.m), std::max((R).1, (R)sc.m), (sc.v.x == 0 && sc.v.y == 0) ? 0 : std::atan2(sc.v.y, sc.v.x)};
  bool any = false, unsure = false; for (auto& s : sc.S) { int k = mustIntersect(g, foot(s)); any |= k == 1; unsure |= k < 0; }
  if (unsure && !any) c.skip(); Flags f = flags(r); f.local = true; c.describe(sc.str() + mon::fmt(" aggregated %d repulsion %d planar %d", aggregated, f.rep, f.pl));
  uint64_t keep = r.next(); mon::Rng r1(keep), r2(keep); auto e1 = buildEnv(sc, r1, aggregated), e2 = buildEnv(sc, r2, aggregated); auto a = agentOf(sc, r);
  E3 out = call(a, e1, f); Flags f2 = f; f2.local = false; E3 glob = call(a, e2, f2);
  if (any) c.check(same(out, glob), "local-near", "an obstacle meets the look-ahead region, local mode gives %s, global mode %s", vs(vec(out)).c_str(), vs(vec(glob)).c_str());
  else c.check(same(out, eig(sc.v)), "local-clear", "no obstacle meets the look-ahead region, desired %s modulated %s (global mode %s)", vs(sc.v).c_str(), vs(vec(out)).c_str(), vs(vec(glob)).c_str());
  c.cls(any ? "local mode, obstacle in the region" : "local mode, region clear"); if (!any && !same(glob, eig(sc.v))) c.cls("local mode differs from global mode"); if (aggregated && e1.get_obstacle_list().size() < sc.S.size()) c.cls("local mode with aggregates"); if (nv == 0) c.cls("local mode, standing still"); c.note((double)sc.x.x);
}
static void bound(mon::Ctx& c) {
  auto& r = c.rng; SceneOpt o; o.planar = r.chance(.3); o.nmax = 6; o.moving = false; o.flat = !o.planar; o.where = r.range(2, 3); Scene sc; if (!randScene(r, o, sc)) c.skip();
  if (r.chance(.4)) { V sh = rd((R)r.logu(20, 1e5) * randDir(r)); if (o.planar) sh.z = 0; sc.x = rd(sc.x + sh); }
  Flags f = flags(r); f.local = false; f.rep = false; f.pl = false; R dmin = 1e300L, cmin = 1; for (auto& s : sc.S) { Part p = part(s, sc); if (p.rel > 1e-8L || p.c < .03L) c.skip(); dmin = std::min(dmin, p.d); cmin = std::min(cmin, p.c); if (p.d > f.crit && p.d - f.crit < 1e-6L) c.skip(); }
  if (dmin < 1 + 1e-6L) c.skip(); c.describe(sc.str()); auto e = buildEnv(sc, r); auto a = agentOf(sc, r); V out = vec(call(a, e, f)); R sp = norm(sc.v), dev = norm(out - sc.v);
  // each matrix moves the velocity by at most (1+2/c)/d, speed and direction of the blend by at most (1+pi) times that
  R lim = (1 + PI) * (1 + 2 / cmin) / dmin * sp + 1e-6L * sp; c.check(dev <= lim, "deviation", "desired %s modulated %s: deviation %.6Lg exceeds %.6Lg at smallest distance value %.6Lg", vs(sc.v).c_str(), vs(out).c_str(), dev, lim, dmin);
  R low = (1 - 1 / dmin) * cmin / 4; c.check(norm(out) > .5L * low * sp, "stopped", "outside all obstacles (smallest distance value %.9Lg) desired %s modulated to %s", dmin, vs(sc.v).c_str(), vs(out).c_str());
  if (dmin > 1e4L) { c.cls("far away"); if (cmin > .3L) c.check(dev <= .01L * sp, "deviation", "far away (%.3Lg) the velocity still deviates by %.3Lg", dmin, dev / sp); } else c.cls("near"); if (dmin < 1.1L) c.cls("just outside");
  Scene z = sc; z.v = V(); auto az = agentOf(z, r); V oz = vec(call(az, e, f)); c.check(norm(oz) == 0, "zero", "zero velocity modulated to %s", vs(oz).c_str()); c.note((double)out.x);
}
static void run(mon::Ctx& c) { int k = c.rng.below(10); if (k < 2) empty(c); else if (k < 5) localMode(c); else bound(c); }
int main(int a, char** v) { return mon::drive(a, v, "C13", run); }
