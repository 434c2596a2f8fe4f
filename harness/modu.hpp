// Independent model of the modulation of an agent's velocity among ellipsoids (long double, rotation-invariant formulation).
#pragma once
#include "planar.hpp"
struct Scene {
  std::vector<Spec> S; V x, v; double m = 0; Q aq; double crit = 1, pw = 2;
  std::string str() const { std::string s = mon::fmt("agent %s v %s margin %g critical %g power %g", vs(x).c_str(), vs(v).c_str(), m, crit, pw); for (auto& o : S) s += o.str(); return s; }
};
// what one obstacle contributes
struct Part { R d; V n, r; R c; V vel; R rel; };  // distance, unit normal, unit reference direction, cosine between them, obstacle velocity at the agent, relative error of the normal
inline Part part(const Spec& s, const Scene& sc) {
  Part p; V mm(sc.m, sc.m, sc.m); p.d = s.level(sc.x, sc.m); V g = s.grad(sc.x, sc.m); R gn = norm(g), rn = norm(sc.x - s.ref);
  p.n = gn > 0 ? (1 / gn) * g : V(); p.r = rn > 0 ? (1 / rn) * (sc.x - s.ref) : V(); p.c = std::fabs(dot(p.n, p.r)); p.vel = s.velAt(sc.x);
  V l = s.local(sc.x), k = s.L(mm); p.rel = gn > 0 ? 0 : 1;
  for (int j = 0; j < 3 && gn > 0; ++j) { R dx = 2e-15L * (1 + norm(sc.x) + norm(s.pos)); p.rel += 2 * s.curv[j] * (2 * s.curv[j] - 1) / (k[j] * k[j]) * std::pow((std::fabs(l[j]) + dx) / k[j], 2 * s.curv[j] - 2) * dx / gn; }
  if (rn < 1e-3L) p.rel = 1;
  return p; }
inline V applyM(const Part& p, V v) { R k = p.d <= 1 ? 1 : 1 / p.d, cs = dot(p.n, p.r), al = dot(p.n, v) / cs; V t = v - al * p.r; return ((1 - k) * al) * p.r + (1 + k) * t; }
inline std::vector<R> weightsOf(const std::vector<R>& d, R crit, R pw) {
  std::vector<R> w(d.size(), 0); int k = 0; for (R x : d) k += x <= crit;
  R sum = 0; for (size_t i = 0; i < d.size(); ++i) { w[i] = k ? (d[i] <= crit ? 1.0L / k : 0) : std::pow(d[i] - crit, -pw); sum += w[i]; }
  for (auto& x : w) x /= sum; return w; }
struct Out { V v, u, rel; R tol; bool ok = true; std::string why; std::vector<Part> P; std::vector<R> w; R phi = 0, speed = 0; int critical = 0; void bad(const char* s) { ok = false; if (why.empty()) why = s; } };
// blends per-obstacle results m_i (of the relative velocity) with weights w
inline void blend(Out& o, const std::vector<V>& m, R lever) {
  R rn = norm(o.rel); V e = (1 / rn) * o.rel, phi; o.speed = 0; R worst = 0;
  for (size_t i = 0; i < m.size(); ++i) { if (o.w[i] == 0) continue; R mn = norm(m[i]); o.speed += o.w[i] * mn; if (mn < 1e-6L * rn) { o.bad("modulated to a stop"); continue; }
    V h = (1 / mn) * m[i]; R cs = dot(h, e); V pp = h - cs * e; R sn = norm(pp), th = std::atan2(sn, cs); worst = std::max(worst, rn / mn);
    if (sn > 1e-12L) phi = phi + (o.w[i] * th / sn) * pp;
    // an almost exact reversal has no defined axis; it only matters if it is mixed with others
    if (PI - th < 0.02L && o.w[i] < 1 - 1e-12L) o.bad("reversed velocity mixed with others"); else if (PI - th < 1e-4L && o.w[i] < 1) o.bad("reversed"); }
  R pn = norm(phi); o.phi = pn; V dir = pn > 1e-15L ? std::cos(pn) * e + (std::sin(pn) / pn) * phi : e;
  o.v = o.speed * dir + o.u; o.tol = (3e-7L + lever * worst) * (o.speed + rn) + 1e-12L * norm(o.u); }
inline Out expect(const Scene& sc) {
  Out o; std::vector<R> d; R lever = 0;
  for (auto& s : sc.S) { o.P.push_back(part(s, sc)); auto& p = o.P.back(); d.push_back(p.d);
    if (std::fabs(p.d - sc.crit) < 1e-9L * (1 + sc.crit) || (p.d > sc.crit && p.d - sc.crit < 1e-6L)) o.bad("at the critical distance");
    o.critical += p.d <= sc.crit; }
  o.w = weightsOf(d, sc.crit, sc.pw); 
  for (size_t i = 0; i < o.P.size(); ++i) { auto& p = o.P[i]; if (p.rel > 1e-8L) o.bad("normal ill-conditioned"); if (p.c < 0.03L) o.bad("grazing reference direction"); if (o.w[i] == 0) continue;
    lever = std::max(lever, (4e-13L + 40 * p.rel) / (p.c * p.c) + 1e-10L * (sc.pw + 1)); o.u = o.u + (o.w[i] * std::exp(-(std::max((R)1, p.d) - 1))) * p.vel; }
  o.rel = sc.v - o.u; R rn = norm(o.rel); if (rn < 1e-6L * (norm(sc.v) + norm(o.u)) || rn == 0) { o.bad("no relative velocity"); o.v = o.u; o.tol = 1e-5L * (norm(sc.v) + norm(o.u)); return o; }
  std::vector<V> m; for (auto& p : o.P) m.push_back(p.c > 0 ? applyM(p, o.rel) : V());
  blend(o, m, lever); return o; }
inline std::vector<std::string> shuffledNames(mon::Rng& r, int n) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(mon::fmt("ob%c%d", 'a' + r.below(26), i)); if (r.chance(.3)) { auto odd = oddNames(); r.shuffle(odd); for (int i = 0; i < n && i < (int)odd.size(); ++i) if (r.chance(.7)) v[i] = odd[i]; } r.shuffle(v); return v; }
inline lib::Environment buildEnv(const Scene& sc, mon::Rng& r, bool aggregated = false, std::vector<std::shared_ptr<lib::Ellipsoid>>* keep = nullptr) {
  lib::Environment e(aggregated); std::vector<int> ord; for (size_t i = 0; i < sc.S.size(); ++i) ord.push_back(i); r.shuffle(ord);
  if (keep) keep->assign(sc.S.size(), nullptr);
  bool lived = r.chance(.1); std::vector<std::string> old; if (lived) { for (int i = r.range(1, 3); i--;) { Spec s; s.name = mon::fmt("earlier%d", i); s.pos = rd(sc.x + randV(r, 4)); s.ref = s.pos; e.add_obstacle(build(s, r)); old.push_back(s.name); } if (r.chance(.8)) e.update(); lib::Agent a(lib::State{eig(sc.x)}, .1); a.set_linear_velocity(E3(1, .5, 0)); lib::Modulation::modulate_velocity(a, e, r.chance(.5)); if (r.chance(.4)) { e.set_aggregated(!aggregated); e.update(); e.set_aggregated(aggregated); } }
  for (int i : ord) { auto p = build(sc.S[i], r); if (keep) (*keep)[i] = p; e.add_obstacle(p); if (lived && !aggregated && r.chance(.2)) e.update(); if (lived && !old.empty() && r.chance(.5)) { e.remove_obstacle(old.back()); old.pop_back(); } }
  for (auto& n : old) e.remove_obstacle(n);
  e.update(); return e; }
inline lib::Agent agentOf(const Scene& sc, mon::Rng& r) { return buildAgent(r, sc.x, sc.v, sc.m, sc.aq); }
struct SceneOpt { int nmin = 1, nmax = 5; bool planar = false, moving = true, curved = true, shiftRef = true, flat = false; int where = -1; };  // where: 0 on surface of obstacle 0, 1 inside it, 2 outside all near, 3 far
inline V randVel(mon::Rng& r, bool planar) { V v; switch (r.below(5)) { case 0: v = V(); v[r.below(planar ? 2 : 3)] = r.sgn() * r.uni(.1, 3); break; case 1: v = (R)(r.chance(.5) ? r.logu(1e-3, 1e3) : r.logu(1e-9, 1e6)) * randDir(r); break; default: v = randV(r, 2); } if (planar) v.z = 0; if (norm(v) < 1e-12L) v = V(1, 0, 0); return rd(v); }
inline V dirFor(mon::Rng& r, const Spec& s, V k, bool planar) { V d = randDir(r); if (r.chance(.15)) { d = V(); d[r.below(planar ? 2 : 3)] = r.sgn(); } if (planar) { d.z = 0; if (norm(d) < .1L) d = V(0, 1, 0); } return V(d.x * k.x, d.y * k.y, d.z * k.z); }
// another unit of length; every axis stays thick enough to count
inline void resize(Scene& sc, R k) { for (auto& s : sc.S) { s.pos = rd(k * s.pos); s.ref = rd(k * s.ref); s.len = rd(k * s.len); s.margin = rd(k * s.margin); } sc.x = rd(k * sc.x); sc.m = (double)(k * sc.m); }
// false when the draw did not give the wanted placement
inline bool randScene1(mon::Rng& r, const SceneOpt& o, Scene& sc, int* where);
inline bool randScene(mon::Rng& r, const SceneOpt& o, Scene& sc, int* where = nullptr) {
  if (!randScene1(r, o, sc, where)) return false; if (!o.flat && r.chance(.12)) { resize(sc, r.logu(.01, 100)); if (o.where == 0 && !(sc.S[0].level(sc.x, sc.m) <= 1)) return false; } return true; }
inline bool randScene1(mon::Rng& r, const SceneOpt& o, Scene& sc, int* where) {
  SpecOpt so; so.planar = o.planar; so.moving = o.moving; so.curved = o.curved; so.shiftRef = o.shiftRef; so.flat = o.flat; so.box = r.uni(1, 10); so.lmax = r.uni(.5, 3);
  int n = r.range(o.nmin, o.nmax); if (o.nmax >= 5 && r.chance(.04)) { n = r.range(o.nmax, r.chance(.1) ? 80 : 24); so.box = std::max(so.box, n > 24 ? 15.0 : 6.0); } auto names = shuffledNames(r, n); sc = Scene(); sc.m = r.chance(.5) ? 0 : r.uni(0, .5); if (!o.planar || r.chance(.3)) sc.aq = rq(o.planar ? qyaw(r.uni(-3, 3)) : randQ(r)); sc.v = randVel(r, o.planar);
  for (int i = 0; i < n; ++i) { sc.S.push_back(randSpec(r, names[i], so)); Spec& t = sc.S.back(); if (t.len.x <= 1e-4L || t.len.y <= 1e-4L || t.len.z <= 1e-4L) t.ref = t.pos; }  // a flat axis counts as one only without margins
  if (n > 1 && r.chance(.12)) for (int i = 1; i < n; ++i) if (r.chance(.5)) { Spec& t = sc.S[i]; const Spec& u = sc.S[r.below(i)]; if (r.chance(.4)) { std::string nm = t.name; t = u; t.name = nm; } else { t.ref = rd(u.pos + (t.ref - t.pos)); t.pos = u.pos; } }  // obstacles at the same place, or all the same
  int w = o.where >= 0 ? o.where : r.below(4); if (where) *where = w;
  if (n == 0) { sc.x = rd(randV(r, 10)); if (o.planar) sc.x.z = 0; return true; }
  const Spec& s = sc.S[0]; V mm(sc.m, sc.m, sc.m), k = s.L(mm);
  R lev = w == 0 ? 1 - (R)r.logu(1e-10, 1e-7) : w == 1 ? (R)r.uni(.1, .999) : w == 2 ? 1 + (R)r.logu(1e-3, 5) : (R)r.logu(10, 1e5);
  sc.x = rd(pointAtLevel(s, dirFor(r, s, k, o.planar), lev, mm)); if (o.planar) sc.x.z = 0;
  if (w == 0 && !(s.level(sc.x, sc.m) <= 1 && s.level(sc.x, sc.m) > 1 - 2e-7L)) return false;
  // the others must not contain the agent unless it is allowed to be inside
  if (w != 1) for (int i = 1; i < n; ++i) { auto& t = sc.S[i]; for (int q = 0; q < 40 && t.level(sc.x, sc.m) <= 1.02L; ++q) { V sh = rd(randV(r, so.box)); if (o.planar) sh.z = 0; V np = rd(sc.x + sh); t.ref = rd(t.ref + (np - t.pos)); t.pos = np; } if (t.level(sc.x, sc.m) <= 1.02L) return false; }
  return true; }
