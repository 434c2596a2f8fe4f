// C02: ellipsoid distance and normal against the level function in extended precision.
#include "scene.hpp"
static void run(mon::Ctx& c) {
  auto& r = c.rng;
  SpecOpt o; o.box = r.chance(0.2) ? 100 : 8; o.lmin = r.chance(0.2) ? 0.01 : 0.3; o.lmax = r.chance(0.2) ? 50 : 3; o.flat = true; o.planar = r.chance(0.2);
  Spec s = randSpec(r, "e", o);
  if (r.chance(.03)) s.curv[r.below(3)] = r.range(5, 8);
  double am = r.chance(0.5) ? 0 : r.uni(0, 2);
  V am3(am, am, am);
  if (r.chance(0.1)) for (int i = 0; i < 3; ++i) if (s.len[i] == 0) s.len[i] = r.chance(.5) ? r.logu(1.1e-5, 9e-5) : r.uni(0, 5e-5);
  bool thin = r.chance(0.1); if (thin) { int i = r.below(3); s.margin[i] = 0; s.len[i] = r.logu(1.1e-4, 1e-2); am = 0; am3 = V(); s.curv[i] = 1; }
  auto e = r.chance(.15) ? std::make_shared<lib::Ellipsoid>(*build(s, r)) : build(s, r);
  V k = s.L(am3); std::vector<V> seen; bool again = !thin && r.chance(.3);
  for (int n = 0; n < (again ? 9 : 6); ++n) {
    V p; if (again && n >= 3 && n % 3 == 0) { c.describe(" then " + tweak(s, *e, r, o.planar) + " " + s.str()); k = s.L(am3); c.cls("asked again after one attribute changed"); }
    V d = randDir(r); if (r.chance(0.25)) { d = V(); d[r.below(3)] = r.sgn(); } else if (r.chance(0.2)) d[r.below(3)] = 0;
    V dk(d.x * k.x, d.y * k.y, d.z * k.z);
    R target = r.chance(0.3) ? 1 : (R)r.logu(1e-3, 1e4);
    p = rd(pointAtLevel(s, dk, target, am3)); if (n && target != 1 && !again) { V was = p; p = oddly(r, p, .15); if (p.x != was.x || p.y != was.y || p.z != was.z) target = -1; } if (again && n >= 3 && r.chance(.7)) { p = seen[r.below(seen.size())]; target = -1; } seen.push_back(p);
    if (n == 0) c.describe(s.str() + mon::fmt(" agent margin %.17g point ", am) + vs(p));
    R g = s.level(p, am3); V gl = s.gradLocal(p, am3);
    R scale = norm(p) + norm(s.pos) + 1;
    R tol = 1e-11L * (1 + g) + (std::fabs(gl.x) + std::fabs(gl.y) + std::fabs(gl.z)) * 1e-14L * scale;
    auto in = [&](const char* what) { return mon::fmt("%s at %s", what, vs(p).c_str()); };
    double got = e->compute_distance_to_point(eig(p), Eigen::Array3d(am, am, am));
    c.near(got, (double)g, (double)tol, "distance", in("distance to point with margin array").c_str());
    c.near(static_cast<lib::Obstacle&>(*e).compute_distance_to_point(eig(p), am), (double)g, (double)tol, "distance", in("distance to point with scalar margin").c_str());
    if (am == 0) c.near(static_cast<lib::Obstacle&>(*e).compute_distance_to_point(eig(p)), (double)g, (double)tol, "distance", in("distance to point without margin").c_str());
    lib::Agent ag = buildAgent(r, p, rd(randV(r, 2)), am, rq(randQ(r)));
    c.near(e->compute_distance_to_agent(ag), (double)g, (double)tol, "distance", in("distance to agent").c_str());
    c.check((got < 1) == (g < 1) || std::fabs(g - 1) < tol, "side", "side of the surface wrong: got %.17g, level %.17Lg", got, g);
    // anisotropic query margin
    { V m3(r.uni(0, 1), r.uni(0, 1), r.uni(0, 1)); R g3 = s.level(p, m3); V gl3 = s.gradLocal(p, m3);
      R tol3 = 1e-11L * (1 + g3) + (std::fabs(gl3.x) + std::fabs(gl3.y) + std::fabs(gl3.z)) * 1e-14L * scale;
      c.near(e->compute_distance_to_point(eig(p), arr(m3)), (double)g3, (double)tol3, "distance", in("distance with anisotropic margin").c_str());
      // the same margin on the obstacle
      Spec s2 = s; s2.margin = rd(s.margin + m3); auto e2 = build(s2, r);
      c.near(static_cast<lib::Obstacle&>(*e2).compute_distance_to_point(eig(p)), (double)s2.level(p), (double)(tol3 * 4), "margin", in("margin moved to the obstacle").c_str()); }
    R gn = norm(gl);
    // the direction is ill-conditioned near the centre: demand that rounding of the input cannot turn it
    bool degenerate = !(gn > 1e-9L);
    V ll = s.local(p);
    R rel = 0;
    for (int i = 0; i < 3; ++i) if (s.curv[i] > 0) { R dx = 4e-16L * scale * 4; R h = 2 * s.curv[i] * (2 * s.curv[i] - 1) / (k[i] * k[i]) * std::pow((std::fabs(ll[i]) + dx) / k[i], 2 * s.curv[i] - 2); rel += h * dx / (gn + 1e-300L); }
    if (!degenerate && rel < 1e-7L) {
      V n1 = vec(e->compute_normal_to_agent(ag)); V want = (1 / gn) * gl;
      c.check(std::fabs(norm(n1) - 1) < 1e-12L * 1000, "normal-unit", "normal not of unit length: %.17Lg %s", norm(n1), in("").c_str());
      c.check(norm(n1 - want) < 1e-9L + 20 * rel, "normal", "normal (%.12Lg,%.12Lg,%.12Lg) expected (%.12Lg,%.12Lg,%.12Lg) %s", n1.x, n1.y, n1.z, want.x, want.y, want.z, in("").c_str());
      c.cls(g < 0.999 ? "normal inside" : g > 1.001 ? "normal outside" : "normal on surface");
    }
    c.cls(g < 0.999 ? "inside" : g > 1.001 ? "outside" : "on surface");
    if (std::fabs(g - target) < 1e-6L * std::fabs(target)) c.cls("level hit as aimed");
    c.note((double)g); c.note((double)p.x);
  }
  if (s.curv.x + s.curv.y + s.curv.z > 3.5) c.cls("curved (factor above 1)");
  if (o.flat && (s.len.x <= 1e-4 || s.len.y <= 1e-4 || s.len.z <= 1e-4)) c.cls("flat axis"); if (thin) c.cls("thin axis");
}
int main(int a, char** v) { dressUp() = 2; return mon::drive(a, v, "C02", run); }
