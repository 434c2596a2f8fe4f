// C17: reference points under planar modulation.
#include "modu.hpp"
struct Snap { E3 pos, ref, lin, ang; Eigen::Quaterniond q; Eigen::Array3d len, mar, cur; std::string name, type;
  static Snap of(const lib::Ellipsoid& e) { return Snap{e.get_position(), e.get_reference_position(), e.get_linear_velocity(), e.get_angular_velocity(), e.get_orientation(), e.get_axis_lengths(), e.get_safety_margin(), e.get_curvature_factor(), e.get_name(), e.get_type()}; }
  bool rest(const Snap& o) const { return pos == o.pos && lin == o.lin && ang == o.ang && q.coeffs() == o.q.coeffs() && (len == o.len).all() && (mar == o.mar).all() && (cur == o.cur).all() && name == o.name && type == o.type; } };
static void run(mon::Ctx& c) {
  auto& r = c.rng; SceneOpt o; o.planar = true; o.nmax = 6; o.where = r.below(3); Scene sc; if (!randScene(r, o, sc)) c.skip();
  if (r.chance(.4)) for (auto& s : sc.S) { double z = r.uni(-3, 3); s.pos.z = z; s.ref.z = z; } if (r.chance(.3)) { sc.x.z = r.uni(-2, 2); sc.v.z = r.uni(-1, 1); } 
  if (r.chance(.3)) { int i = r.below(sc.S.size()); R yaw = 2 * std::atan2(sc.S[i].q.z, sc.S[i].q.w); yaw += r.below(4) * PI / 2; R sp = r.uni(.1, 2); sc.v.x = sp * std::cos(yaw); sc.v.y = sp * std::sin(yaw); }
  if (r.chance(.15)) { sc.v = r.chance(.5) ? V() : V(0, 0, r.uni(-1, 1)); } sc.v = rd(sc.v); sc.x = rd(sc.x);
  int mode = r.below(5); c.describe(sc.str() + mon::fmt(" mode %d", mode)); bool aggEnv = mode == 4; std::vector<std::shared_ptr<lib::Ellipsoid>> O; auto env = buildEnv(sc, r, false, &O); auto a = agentOf(sc, r); std::vector<Snap> before; for (auto& p : O) before.push_back(Snap::of(*p));
  lib::Agent a0 = a; bool local = mode == 3 && r.chance(.5), rep = r.chance(.3);
  if (mode <= 1) for (auto& p : O) p->shift_reference_point(a); else if (mode == 2 || mode == 3) { lib::Modulation::modulate_velocity(a, env, local, rep, mode == 2, r.uni(.5, 2), 2.0); } else lib::Modulation::modulate_velocity(a, env, true, rep, true);
  bool shifts = mode <= 2 || mode == 4; bool inRegion = true;
  if (mode == 4) { // local: shifts happen only when an obstacle meets the look-ahead region
    R nv = norm(sc.v); V ctr = sc.x + (nv > 0 ? (R)(.5L / nv) * sc.v : V()); Foot g{ctr.x, ctr.y, (nv > 0 ? .5L : 0) + std::max((R).1, (R)sc.m), std::max((R).1, (R)sc.m), (sc.v.x == 0 && sc.v.y == 0) ? 0 : std::atan2(sc.v.y, sc.v.x)}; bool any = false, unsure = false; for (auto& s : sc.S) { int k = mustIntersect(g, foot(s)); any |= k == 1; unsure |= k < 0; } if (!any && unsure) c.skip(); inRegion = any; c.cls("local mode"); }
  c.check(dist(a.get_position(), vec(a0.get_position())) == 0 && dist(a.get_linear_velocity(), vec(a0.get_linear_velocity())) == 0, "agent", "the agent changed");
  for (size_t i = 0; i < sc.S.size(); ++i) { auto& s = sc.S[i]; Snap now = Snap::of(*O[i]); c.check(now.rest(before[i]), "something-else", "more than the reference position of %s changed", s.name.c_str());
    V got = vec(now.ref), old = vec(before[i].ref); R nx = std::hypot(sc.v.x, sc.v.y); bool moved = got.x != old.x || got.y != old.y || got.z != old.z;
    if (!shifts) { c.check(!moved, "unasked", "reference position of %s moved without planar modulation", s.name.c_str()); c.cls("no planar modulation"); c.note((double)got.x); continue; }
    if (nx == 0 || !inRegion) { c.check(!moved, "no-heading", "reference position of %s moved although %s", s.name.c_str(), nx == 0 ? "there is no planar heading" : "nothing is in the region"); c.cls("no planar heading"); c.note((double)got.x); continue; }
    Foot f = foot(s); R u0, v0, u1, v1; inFrame(f, sc.x.x, sc.x.y, u0, v0); inFrame(f, sc.x.x + sc.v.x / nx, sc.x.y + sc.v.y / nx, u1, v1); R head = 4e-16L * (1 + norm(sc.x) + norm(s.pos)) / nx;  /* relative error of the heading */ R du = u1 - u0, dv = v1 - v0, A = du * du + dv * dv, B = u0 * du + v0 * dv, C = u0 * u0 + v0 * v0 - 1, D = B * B - A * C; R rel = D / A; 
    if (std::fabs(rel) < (1e-7L + 100 * head) * (1 + B * B / A) * (1 + f.a / f.b + f.b / f.a) || head > 1e-4L) { c.cls("tangent line (left out)"); continue; }
    if (D < 0) { c.check(!moved, "missed", "line along the heading misses %s but its reference position moved to %s", s.name.c_str(), vs(got).c_str()); c.cls("line misses"); }
    else { R t = -B / A; V want(sc.x.x + t * sc.v.x / nx, sc.x.y + t * sc.v.y / nx, s.pos.z); R tol = (1e-9L + 10 * head) * (1 + norm(sc.x) + norm(s.pos) + std::fabs(t)) * (1 + f.a / f.b + f.b / f.a); c.check(norm(got - want) <= tol, "chord", "reference position of %s is %s, middle of the chord is %s", s.name.c_str(), vs(got).c_str(), vs(want).c_str()); c.check(fval(f, got.x, got.y) < 1, "outside", "reference position outside the footprint"); c.cls("line meets");
      R hl = std::remainder(std::atan2(sc.v.y, sc.v.x) - f.th, PI); if (std::fabs(std::fabs(hl) - PI / 2) < 1e-6L) c.cls("heading along the local y axis"); if (std::fabs(hl) < 1e-6L) c.cls("heading along the local x axis"); if (t < 0) c.cls("obstacle behind the agent"); if (s.pos.z != 0) c.cls("obstacle at another height"); }
    c.note((double)got.x); c.note((double)got.y); }
  (void)aggEnv; c.cls(mode <= 1 ? "shifted directly" : mode == 2 ? "through the modulation" : "other modes");
}
int main(int a, char** v) { dressUp() = 1; return mon::drive(a, v, "C17", run); }
