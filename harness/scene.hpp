// Scenes of ellipsoids and the independent arithmetic the oracles use (no code of the library is used in the oracles).
#pragma once
#include "mon.hpp"
#include "DynamicObstacleAvoidance/Agent.hpp"
#include "DynamicObstacleAvoidance/Environment.hpp"
#include "DynamicObstacleAvoidance/Modulation.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Ellipsoid.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Aggregate.hpp"
#include "DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp"
#include "DynamicObstacleAvoidance/Utils/MathTools.hpp"
#include "DynamicObstacleAvoidance/Utils/ObstacleGeneration/Aggregation.hpp"
#include <memory>
#include <deque>

namespace lib = DynamicObstacleAvoidance;
typedef long double R;
typedef Eigen::Vector3d E3;
static const R PI = 3.14159265358979323846264338327950288L;

struct V { R x, y, z;
  V(R a = 0, R b = 0, R c = 0) : x(a), y(b), z(c) {}
  R operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
  R& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; } };
inline V operator+(V a, V b) { return V(a.x + b.x, a.y + b.y, a.z + b.z); }
inline V operator-(V a, V b) { return V(a.x - b.x, a.y - b.y, a.z - b.z); }
inline V operator-(V a) { return V(-a.x, -a.y, -a.z); }
inline V operator*(R s, V a) { return V(s * a.x, s * a.y, s * a.z); }
inline R dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V a, V b) { return V(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
inline R norm(V a) { return std::sqrt(dot(a, a)); }
inline V unit(V a) { return (1 / norm(a)) * a; }
inline V vec(const E3& e) { return V(e(0), e(1), e(2)); }
inline E3 eig(V a) { return E3((double)a.x, (double)a.y, (double)a.z); }
inline Eigen::Array3d arr(V a) { return Eigen::Array3d((double)a.x, (double)a.y, (double)a.z); }
inline V rd(V a) { return V((double)a.x, (double)a.y, (double)a.z); }  // as the doubles the library sees
inline bool finite3(const E3& e) { return std::isfinite(e(0)) && std::isfinite(e(1)) && std::isfinite(e(2)); }
inline R dist(const E3& a, V b) { return norm(vec(a) - b); }

struct Q { R w = 1, x = 0, y = 0, z = 0; };
inline Q qmul(Q a, Q b) { return Q{a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w}; }
inline R qnorm(Q q) { return std::sqrt(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z); }
inline Q qunit(Q q) { R n = qnorm(q); return Q{q.w / n, q.x / n, q.y / n, q.z / n}; }
inline Q qconj(Q q) { return Q{q.w, -q.x, -q.y, -q.z}; }
inline V qrot(Q q, V v) {  // q need not be unit
  q = qunit(q); V u(q.x, q.y, q.z); V t = 2 * cross(u, v); return v + q.w * t + cross(u, t); }
inline V qinv(Q q, V v) { return qrot(qconj(q), v); }
inline Q qyaw(R a) { return Q{std::cos(a / 2), 0, 0, std::sin(a / 2)}; }
inline Q qaxis(V ax, R a) { ax = unit(ax); R s = std::sin(a / 2); return Q{std::cos(a / 2), s * ax.x, s * ax.y, s * ax.z}; }
inline Q qof(const Eigen::Quaterniond& q) { return Q{q.w(), q.x(), q.y(), q.z()}; }
inline Eigen::Quaterniond eq(Q q) { return Eigen::Quaterniond((double)q.w, (double)q.x, (double)q.y, (double)q.z); }
inline R qdist(Q a, Q b) {  // up to sign
  R p = 0, m = 0; R A[4] = {a.w, a.x, a.y, a.z}, B[4] = {b.w, b.x, b.y, b.z};
  for (int i = 0; i < 4; ++i) { p += (A[i] - B[i]) * (A[i] - B[i]); m += (A[i] + B[i]) * (A[i] + B[i]); }
  return std::sqrt(std::min(p, m)); }

// an ellipsoid obstacle as a plain value
struct Spec {
  std::string name; V pos; Q q; V len{1, 1, 1}, margin{0, 0, 0}; V curv{1, 1, 1}; V ref; V lin, ang;
  bool planarOnly = false; R yaw = 0;
  std::string str() const {
    return mon::fmt("[%s pos(%.17g,%.17g,%.17g) q(%.17g,%.17g,%.17g,%.17g) len(%.17g,%.17g,%.17g) margin(%.17g,%.17g,%.17g) curv(%g,%g,%g) ref(%.17g,%.17g,%.17g) v(%.17g,%.17g,%.17g) w(%.17g,%.17g,%.17g)]",
      name.c_str(), (double)pos.x, (double)pos.y, (double)pos.z, (double)q.w, (double)q.x, (double)q.y, (double)q.z, (double)len.x, (double)len.y, (double)len.z,
      (double)margin.x, (double)margin.y, (double)margin.z, (double)curv.x, (double)curv.y, (double)curv.z, (double)ref.x, (double)ref.y, (double)ref.z,
      (double)lin.x, (double)lin.y, (double)lin.z, (double)ang.x, (double)ang.y, (double)ang.z); }
  V L(V extra) const { V l = len + margin + extra; for (int i = 0; i < 3; ++i) if (l[i] <= 1e-4L) l[i] = 1; return l; }
  V local(V p) const { return qinv(q, p - pos); }
  V world(V l) const { return qrot(q, l) + pos; }
  R level(V p, V extra) const { V l = local(p), k = L(extra); R s = 0; for (int i = 0; i < 3; ++i) s += std::pow(std::fabs(l[i] / k[i]), 2 * curv[i]); return s; }
  R level(V p, R m = 0) const { return level(p, V(m, m, m)); }
  V gradLocal(V p, V extra) const { V l = local(p), k = L(extra), g;
    for (int i = 0; i < 3; ++i) g[i] = 2 * curv[i] / k[i] * std::pow(std::fabs(l[i] / k[i]), 2 * curv[i] - 1) * (l[i] < 0 ? -1 : 1);
    return g; }
  V grad(V p, R m) const { return qrot(q, gradLocal(p, V(m, m, m))); }
  V velAt(V p) const { return lin + cross(ang, p - pos); }
};
inline V randDir(mon::Rng& r) { for (;;) { V v(r.gauss(), r.gauss(), r.gauss()); if (norm(v) > 1e-3L) return unit(v); } }
inline V randV(mon::Rng& r, double s) { return V(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)); }
inline Q randQ(mon::Rng& r) {
  switch (r.below(6)) {
    case 0: return Q{};
    case 1: return qyaw(r.uni(-3.14159, 3.14159));
    case 2: return qyaw(r.range(-4, 4) * PI / 4);
    case 3: { V a; a[r.below(3)] = r.sgn(); return qaxis(a, r.range(-4, 4) * PI / 4); }
    case 4: { V a = randDir(r); if (r.chance(.6)) { a = V(); a[r.below(3)] = r.sgn(); } return qaxis(a, r.range(-2, 2) * PI / 2 + (R)r.sgn() * (R)r.logu(1e-12, 1e-2)); }  // hardly turned, or nearly a quarter or half turn
    default: for (;;) { Q q{r.gauss(), r.gauss(), r.gauss(), r.gauss()}; if (qnorm(q) > 1e-3L) return qunit(q); }
  } }
inline Q rq(Q q) { return Q{(double)q.w, (double)q.x, (double)q.y, (double)q.z}; }

// some query, whose answer does not matter here: what an object was asked before must not show in later answers
inline double askAround(lib::Ellipsoid& e, mon::Rng& r) {
  E3 p = e.get_position() + E3(r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)); double s = 0; lib::Obstacle& b = e;
  switch (r.below(8)) {
    case 0: s = b.compute_distance_to_point(p, r.uni(0, .5)); break;
    case 1: { lib::Agent a(lib::State{p}, .1); s = e.compute_normal_to_agent(a)(0) + e.compute_distance_to_agent(a); break; }
    case 2: s = e.point_is_inside(p); break;
    case 3: s = e.sample_from_parameterization(r.range(2, 100), r.chance(.5))(0, 1); break;
    case 4: s = e.area(r.chance(.5)); break;
    case 5: s = e.compute_interesection_points(p, e.get_position()).second.first(0); break;
    case 6: { lib::Ellipsoid o("envelope", lib::State{p}); s = e.is_intersecting(o) + o.is_intersecting(e); break; }
    default: { lib::Agent a(lib::State{p}, .1); a.set_linear_velocity(E3(1, 0, 0)); s = a.in_obstacle(e) + a.get_envelope().is_intersecting(e) + e.generate_repulsion(a)(0); } }
  return s; }
// an object that lived through other values and questions before it got its present values
inline std::shared_ptr<lib::Ellipsoid> buildLived(const Spec& s, mon::Rng& r) {
  auto o = std::make_shared<lib::Ellipsoid>(r.chance(.7) ? s.name : "earlier", lib::State(eig(s.pos) + E3(r.uni(-2, 2), r.uni(-2, 2), 0), Eigen::Quaterniond(Eigen::AngleAxisd(r.uni(-3, 3), E3::UnitZ())), E3(1, 2, 3), E3(3, 2, 1)), arr(s.margin));
  o->set_axis_lengths(Eigen::Array3d(r.uni(.3, 2), r.uni(.3, 2), r.uni(.3, 2))); if (r.chance(.3)) o->set_curvature_factor(Eigen::Array3d(2, 1, 3)); askAround(*o, r);
  if (r.chance(.2)) { auto c = std::make_shared<lib::Ellipsoid>(*o); askAround(*c, r); if (r.chance(.5)) std::swap(o, c); c->set_position(E3(9, 9, 9)); c->set_axis_lengths(Eigen::Array3d(3, 3, 3)); askAround(*c, r); }
  std::vector<int> ord{0, 1, 2, 3, 4, 5, 6, 7}; r.shuffle(ord);
  for (int k : ord) { switch (k) {
      case 0: if (r.chance(.5)) o->set_position(eig(s.pos)); else o->set_position((double)s.pos.x, (double)s.pos.y, (double)s.pos.z); break;
      case 1: o->set_orientation(eq(s.q)); break; case 2: o->set_linear_velocity(eig(s.lin)); break; case 3: o->set_angular_velocity(eig(s.ang)); break;
      case 4: o->set_reference_position(eig(s.ref)); break; case 5: o->set_axis_lengths(arr(s.len)); break; case 6: o->set_curvature_factor(arr(s.curv)); break; default: o->set_name(s.name); }
    if (r.chance(.3)) askAround(*o, r); }
  return o; }
// builds the library object for a spec along one of several equivalent routes
inline std::shared_ptr<lib::Ellipsoid> build(const Spec& s, mon::Rng& r) {
  if (r.chance(.15)) return buildLived(s, r);
  lib::State st(eig(s.pos), eq(s.q), eig(s.lin), eig(s.ang));
  std::shared_ptr<lib::Ellipsoid> o;
  bool iso = s.margin.x == s.margin.y && s.margin.y == s.margin.z;
  int route = r.below(5); if (iso && r.chance(.5)) route += 10; double m = (double)s.margin.x;
  switch (route) {
    case 10: case 11: o = std::make_shared<lib::Ellipsoid>(s.name, st, eig(s.ref), m); break;
    case 12: o = std::make_shared<lib::Ellipsoid>(s.name, st, m); o->set_reference_position(eig(s.ref)); break;
    case 13: o = std::make_shared<lib::Ellipsoid>(s.name, (double)s.pos.x, (double)s.pos.y, (double)s.pos.z, m);
      o->set_orientation(eq(s.q)); o->set_linear_velocity(eig(s.lin)); o->set_angular_velocity(eig(s.ang)); o->set_reference_position(eig(s.ref)); break;
    case 14: o = std::make_shared<lib::Ellipsoid>(s.name, m);
      o->set_reference_position(eig(s.ref)); o->set_angular_velocity(eig(s.ang)); o->set_linear_velocity(eig(s.lin)); o->set_pose(lib::Pose(eig(s.pos), eq(s.q))); break;
    case 0:
    case 1: o = std::make_shared<lib::Ellipsoid>(s.name, st, eig(s.ref), arr(s.margin)); break;
    case 2: o = std::make_shared<lib::Ellipsoid>(s.name, st, arr(s.margin)); o->set_reference_position(eig(s.ref)); break;
    case 3: o = std::make_shared<lib::Ellipsoid>(s.name, (double)s.pos.x, (double)s.pos.y, (double)s.pos.z, arr(s.margin));
      o->set_orientation(eq(s.q)); o->set_linear_velocity(eig(s.lin)); o->set_angular_velocity(eig(s.ang)); o->set_reference_position(eig(s.ref)); break;
    default: o = std::make_shared<lib::Ellipsoid>(s.name, arr(s.margin));
      o->set_reference_position(eig(s.ref)); o->set_angular_velocity(eig(s.ang)); o->set_linear_velocity(eig(s.lin)); o->set_pose(lib::Pose(eig(s.pos), eq(s.q)));
  }
  o->set_axis_lengths(arr(s.len)); o->set_curvature_factor(arr(s.curv));
  return o;
}
// an agent's angular velocity must not matter to anything
inline lib::Agent buildAgent0(mon::Rng& r, V pos, V vel, double margin, Q q);
inline lib::Agent buildAgent(mon::Rng& r, V pos, V vel, double margin, Q q = Q{}) { lib::Agent a = buildAgent0(r, pos, vel, margin, q); if (r.chance(.25)) a.set_angular_velocity(eig((R)(r.chance(.7) ? 1 : 4) * randV(r, 1.5))); return a; }
inline lib::Agent buildAgent0(mon::Rng& r, V pos, V vel, double margin, Q q) {
  if (r.chance(.1)) { lib::Agent a(lib::State(E3(r.uni(-3, 3), r.uni(-3, 3), 0), Eigen::Quaterniond(1, 0, 0, 0), E3(r.uni(-1, 1), 1, 0), E3(0, 0, 1)), r.uni(0, 1)); lib::Ellipsoid e("e", 0, 0, 0); std::vector<int> ord{0, 1, 2, 3}; r.shuffle(ord); static double sink = 0;
    for (int k : ord) { switch (k) { case 0: a.set_position(eig(pos)); break; case 1: a.set_orientation(eq(q)); break; case 2: a.set_linear_velocity(eig(vel)); break; default: a.set_safety_margin(margin); } if (r.chance(.4)) switch (r.below(4)) { case 0: sink += a.get_envelope().is_intersecting(e); break; case 1: sink += a.in_obstacle(e); break; case 2: sink += e.compute_distance_to_agent(a); break; default: { lib::Agent b(a); b.set_position(E3(5, 5, 5)); sink += b.in_obstacle(e); } } }
    return a; }
  switch (r.below(3)) {
    case 0: { lib::Agent a(lib::State(eig(pos), eq(q), eig(vel), E3(0, 0, 0)), margin); return a; }
    case 1: { lib::Agent a(margin); a.set_position(eig(pos)); a.set_orientation(eq(q)); a.set_linear_velocity(eig(vel)); return a; }
    default: { lib::Agent a(lib::State(E3(7, 7, 7), eq(q)), 0.0); a.set_linear_velocity(eig(vel)); a.set_safety_margin(margin); a.set_position(eig(pos)); return a; }
  } }

struct SpecOpt { double box = 8, lmin = 0.3, lmax = 3; bool planar = false, curved = true, shiftRef = true, moving = false, flat = false, margins = true; };
// reference point strictly inside: local coordinates at a level below refLevel
inline V refInside(const Spec& s, mon::Rng& r, bool planar, double shrink = 0.6) {
  V d; for (;;) { d = V(r.uni(-1, 1), r.uni(-1, 1), planar ? 0 : r.uni(-1, 1)); if (dot(d, d) < 1) break; }
  V k = s.L(V()); V l(shrink * d.x * k.x * 0.8, shrink * d.y * k.y * 0.8, shrink * d.z * k.z * 0.8);
  return s.world(l); }
// a point or vector with coordinates that are exactly zero, alike, whole, or the same but for the sign
inline V oddly(mon::Rng& r, V p, double chance = .12) { if (!r.chance(chance)) return p; switch (r.below(7)) { case 0: p.x = 0; break; case 1: p.y = 0; break; case 2: p.y = p.x; break; case 3: p.y = -p.x; break; case 4: p.x = std::floor(p.x); if (r.chance(.5)) p.y = std::floor(p.y); break; case 5: if (r.chance(.4)) p.x = p.y = 0; else p.x = -std::fabs(p.x), p.y = 0; break; default: p.z = r.chance(.5) ? 0 : p.x; } return rd(p); }
// names with a meaning elsewhere in the library, or of unusual form; no two of them alike, none an underscore chain of others
inline const std::vector<std::string>& oddNames() { static const std::vector<std::string> v{"envelope", "aggregate", "obstacle", "Ellipsoid", "", " ", "a name with blanks", "Aggregate", "agent", "StarShapeHull", "~", "0", "-1", "ab.c", "\xc3\xa9t\xc3\xa9", "ENVELOPE", "a very long name that does not fit into any small buffer and goes on and on", "hull", "%s", "wall"}; return v; }
// set by checks whose answers do not depend on the obstacles' motion (1) nor on their names (2)
inline int& dressUp() { static int d = 0; return d; }
inline Spec randSpec(mon::Rng& r, const std::string& name, const SpecOpt& o) {
  Spec s; s.name = name;
  s.pos = rd(randV(r, o.box)); if (o.planar) s.pos.z = 0;
  if (o.planar) { s.planarOnly = true; s.yaw = r.chance(0.3) ? r.range(-4, 4) * PI / 4 : (R)r.uni(-3.14159, 3.14159); if (r.chance(0.1)) s.yaw = 0; if (r.chance(0.08)) s.yaw = r.range(-2, 2) * PI / 2 + (R)r.sgn() * (R)r.logu(1e-12, 1e-2); s.q = rq(qyaw(s.yaw)); if (r.chance(0.2)) s.q = Q{-s.q.w, -s.q.x, -s.q.y, -s.q.z}; }
  else s.q = rq(randQ(r));
  for (int i = 0; i < 3; ++i) s.len[i] = r.logu(o.lmin, o.lmax);
  if (r.chance(0.2)) s.len = V(s.len.x, s.len.x, s.len.x);
  if (o.margins && r.chance(0.6)) { for (int i = 0; i < 3; ++i) s.margin[i] = r.uni(0, 0.6); if (r.chance(0.5)) s.margin = V(s.margin.x, s.margin.x, s.margin.x); }
  if (o.flat && r.chance(0.2)) { int i = r.below(3); s.len[i] = 0; s.margin[i] = 0; }
  if (o.curved && r.chance(0.45)) { for (int i = 0; i < 3; ++i) s.curv[i] = r.range(1, 4); if (r.chance(0.3)) s.curv = V(s.curv.x, s.curv.x, s.curv.x); }
  if (r.chance(.2)) for (int k = r.range(1, 2); k--;) switch (r.below(9)) { // exact and unusual values
      case 0: if (r.chance(.3)) s.pos.x = s.pos.y = 0; else s.pos[r.below(2)] = 0; if (r.chance(.2)) s.pos.z = 0; break;
      case 1: for (int i = 0; i < 3; ++i) s.pos[i] = std::floor(s.pos[i]); break;
      case 2: case 3: if (o.margins && !(o.flat && (s.len.x <= 1e-4L || s.len.y <= 1e-4L || s.len.z <= 1e-4L))) { if (norm(s.margin) == 0 || r.chance(.3)) s.margin = rd(V(r.uni(0, 2), r.uni(0, 2), r.uni(0, 2))); if (r.chance(.6)) { int i = r.below(3); s.margin[i] = 0; if (r.chance(.3)) s.margin[(i + 1) % 3] = 0; } } break;
      case 4: if (o.margins) { int i = r.below(3); if (s.len[i] > 1e-4L) { s.margin[i] = (double)(s.len[i] * (R)r.uni(2, 6)); if (r.chance(.4)) s.margin = V(s.margin[i], s.margin[i], s.margin[i]); } } break;
      case 5: { R g = r.sgn(); if (o.planar) { s.yaw = PI; s.q = Q{0, 0, 0, g}; } else { s.q = Q{0, 0, 0, 0}; int i = r.below(3); (i == 0 ? s.q.x : i == 1 ? s.q.y : s.q.z) = g; } break; }
      case 6: { int i = r.below(3); s.len[i] = r.chance(.5) ? 1 : (double)s.len[(i + 1) % 3]; break; }
      case 7: if (r.chance(.5)) { int i = r.below(3); s.len[i] = (double)(s.len[i] * (R)r.uni(2, 5)); } else s.pos.y = r.sgn() * s.pos.x; break;
      default: if (s.curv.x == 1 && o.curved) s.curv[r.below(3)] = r.range(2, 4); }
  s.len = rd(s.len);
  s.ref = s.pos;
  if (dressUp() > 1 && r.chance(.15)) { auto& n = oddNames(); s.name = r.chance(.3) ? "" : n[r.below(n.size())]; }
  if (dressUp() && !o.moving && r.chance(.3)) { // where motion does not matter
    if (r.chance(.8)) s.lin = rd(randV(r, r.chance(.3) ? r.logu(1e-3, 50) : 2)); if (r.chance(.6)) s.ang = rd(randV(r, r.chance(.3) ? r.logu(1e-3, 20) : 1)); if (o.planar && r.chance(.5)) { s.lin.z = 0; s.ang.x = s.ang.y = 0; } }
  if (o.shiftRef && r.chance(0.6)) s.ref = rd(refInside(s, r, o.planar));
  if (o.moving && r.chance(0.7)) {
    s.lin = rd(randV(r, 2)); s.ang = rd(randV(r, 1));
    if (o.planar) { s.lin.z = 0; s.ang.x = s.ang.y = 0; }
    if (r.chance(0.3)) s.ang = V(); else if (r.chance(0.2)) s.lin = V();
    if (r.chance(.1)) { s.lin = rd((R)r.logu(.03, 6) * s.lin); s.ang = rd((R)r.logu(.03, 6) * s.ang); } }
  return s; }
// changes exactly one attribute of the object and of its spec; nothing else of either
inline std::string tweak(Spec& s, lib::Ellipsoid& e, mon::Rng& r, bool planar) {
  switch (r.below(8)) {
    case 0: case 1: { int i = r.below(planar ? 2 : 3); V was = s.pos; s.pos[i] = (double)(s.pos[i] + r.sgn() * r.uni(.05, 4)); if (r.chance(.2)) { s.pos = rd(-was); if (planar) s.pos.z = was.z; } e.set_position(eig(s.pos)); return "moved"; }
    case 2: { if (planar) { s.yaw += r.chance(.3) ? (R)PI / 2 : (R)r.uni(.1, 3); s.q = rq(qyaw(s.yaw)); } else s.q = rq(randQ(r)); e.set_orientation(eq(s.q)); return "turned"; }
    case 3: { int i = r.below(3); s.len[i] = r.logu(.3, 3); e.set_axis_lengths(arr(s.len)); return "stretched along one axis"; }
    case 4: { int i = r.below(3), j = (i + 1 + r.below(2)) % 3; std::swap(s.len[i], s.len[j]); e.set_axis_lengths(arr(s.len)); return "two axes swapped"; }
    case 5: { R k = r.uni(.5, 2); s.len = rd(k * s.len); e.set_axis_lengths(arr(s.len)); return "scaled"; }
    case 6: { s.lin = rd(randV(r, 2)); s.ang = rd(randV(r, 1)); if (planar) { s.lin.z = 0; s.ang.x = s.ang.y = 0; } e.set_linear_velocity(eig(s.lin)); e.set_angular_velocity(eig(s.ang)); return "velocity changed"; }
    default: { s.name = s.name + "'"; e.set_name(s.name); return "renamed"; } } }
// point whose level is exactly target (by scaling along a ray from the centre, in local coordinates)
inline V pointAtLevel(const Spec& s, V dirLocal, R target, V extra) {
  R lo = 0, hi = 1; V k = s.L(extra);
  auto lev = [&](R t) { R a = 0; for (int i = 0; i < 3; ++i) a += std::pow(std::fabs(t * dirLocal[i] / k[i]), 2 * s.curv[i]); return a; };
  while (lev(hi) < target) { hi *= 2; if (hi > 1e12L) break; }
  for (int i = 0; i < 200; ++i) { R m = (lo + hi) / 2; (lev(m) < target ? lo : hi) = m; }
  return s.world(hi * dirLocal); }
inline std::string vs(V a) { return mon::fmt("(%.17g,%.17g,%.17g)", (double)a.x, (double)a.y, (double)a.z); }
