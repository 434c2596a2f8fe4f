// C04: intersection answers against exact plan-view geometry.
#include "planar.hpp"
#include "DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp"
typedef std::shared_ptr<lib::Obstacle> Ob;
static Spec mk(mon::Rng& r, const std::string& n, double box, double big) {
  SpecOpt o; o.planar = true; o.box = box; o.lmin = 0.2; o.lmax = r.chance(0.25) ? big : 3; Spec s = randSpec(r, n, o); if (r.chance(0.15)) { s.len.x = r.logu(.05, .3); } s.pos.z = r.chance(0.3) ? rd(V(r.uni(-3, 3))).x : 0;
  if (r.chance(0.1)) { s.len = V(s.len.x * 1.0, s.len.x, s.len.x); } s.len = rd(s.len); s.curv = V(1, 1, 1); return s; }
static void pairs(mon::Ctx& c) {
  auto& r = c.rng;
  Spec A = mk(r, "a", 3, 30), B = mk(r, "b", 3, 30);
  Foot fa = foot(A), fb = foot(B);
  int mode = r.below(5);
  if (mode == 0) { R k = r.uni(0.9, 1.1); V p = A.world(V(k * fa.a * std::cos(r.uni(0, 6.28)), k * fa.b * std::sin(r.uni(0, 6.28)), 0)); B.pos = rd(V(p.x, p.y, B.pos.z)); }
  if (mode == 1) { // just touching from outside: put B so that the gap along a random direction is small
    R th = r.uni(0, 6.2831853); V d(std::cos(th), std::sin(th), 0); R lo = 0, hi = 200; for (int i = 0; i < 24; ++i) { R m = (lo + hi) / 2; B.pos = V(A.pos.x + m * d.x, A.pos.y + m * d.y, B.pos.z); R f; Foot q = foot(B); longestArc(fa, q, f); bool in = f <= 1 || fval(fa, q.x, q.y) <= 1; (in ? lo : hi) = m; }
    R k = lo + (R)r.uni(-0.3, 0.3) * (r.chance(0.5) ? 1 : 0.1L) * std::min(fb.a, fb.b); B.pos = rd(V(A.pos.x + k * d.x, A.pos.y + k * d.y, B.pos.z)); }
  if (mode == 2) { B.len.x = rd(V(A.len.x / 50)).x; B.len.y = rd(V(A.len.y / r.uni(20, 100))).x; B.margin = V(); R t = r.uni(0, 6.2831853), k = r.uni(0.97, 1.03); V p = A.world(V(k * fa.a * std::cos(t), k * fa.b * std::sin(t), 0)); B.pos = rd(V(p.x, p.y, B.pos.z)); c.cls("size ratio 20 to 100"); }
  if (r.chance(.12)) { V sh = rd(randV(r, r.logu(10, 1e3))); A.pos = rd(A.pos + sh); B.pos = rd(B.pos + sh); }
  if (r.chance(.1)) { R k = r.logu(.02, 60); for (Spec* q : {&A, &B}) { q->pos = rd(k * q->pos); q->len = rd(k * q->len); q->margin = rd(k * q->margin); } c.cls("other unit of length"); }
  A.ref = A.pos; B.ref = B.pos; fa = foot(A); fb = foot(B);
  c.describe(A.str() + B.str());
  std::shared_ptr<lib::Ellipsoid> ea = build(A, r), eb = build(B, r); Ob a = ea, b = eb; bool both = r.chance(.5);
  for (int again = r.chance(.3) ? 2 : 0;; --again) {
  int must = mustIntersect(fa, fb);
  if (r.chance(.1)) c.check(a->is_intersecting(*a), "self", "an obstacle does not overlap itself");
  bool ab = a->is_intersecting(*b), ba = both || !again ? b->is_intersecting(*a) : ab;
  c.check(ab == ba, "symmetric", "a with b: %d, b with a: %d", ab, ba);
  if (must >= 0) c.check(ab == (must == 1), must ? "missed" : "false-alarm", "footprints %s but reported %s", must ? "overlap clearly" : "are disjoint", ab ? "intersecting" : "not intersecting");
  Rel re = relate(fa, fb);
  c.cls(must == 1 ? (re.centre ? "overlap with a centre inside" : "overlap without centre inside") : must == 0 ? (re.margin < 0.1L ? "narrowly disjoint" : "disjoint") : "undecided"); c.note((double)re.arcBinA); c.note((double)A.pos.x);
  if (must == 1 && !re.centre) { if (re.arcBinA > 0.07L && re.arcAinB < 0.06L) c.cls("only b's contour sampled inside a"); if (re.arcAinB > 0.07L && re.arcBinA < 0.06L) c.cls("only a's contour sampled inside b"); }
  if (!again) break; 
  { Spec& s = again == 2 || r.chance(.5) ? B : A; s.ref = s.pos; std::string what = tweak(s, &s == &A ? *ea : *eb, r, true); c.describe(" then " + what + " " + s.str()); fa = foot(A); fb = foot(B); c.cls("asked again after one attribute changed"); } }
  // the agent's disc
  double m = r.chance(0.3) ? 0 : r.uni(0, 1.5), me = std::max(0.1, m);
  V p = B.pos; p.z = 0; R t = r.uni(0, 6.2831853), k = r.uni(0.7, 1.4); { V w = A.world(V(k * (fa.a + me) * std::cos(t), k * (fa.b + me) * std::sin(t), 0)); if (r.chance(0.8)) p = rd(V(w.x, w.y, r.uni(-1, 1))); }
  V av = rd((R)(r.chance(.15) ? r.logu(.01, 50) : 1) * randV(r, 2)); if (r.chance(.2)) { av = V(); int k = r.below(5); if (k < 4) av[k / 2] = (k % 2 ? -1 : 1) * r.uni(.1, 2); } lib::Agent ag = buildAgent(r, p, av, m, rq(randQ(r)));
  Foot fd{p.x, p.y, me, me, 0}; int ma = mustIntersect(fd, fa); bool got = ag.in_obstacle(*a);
  if (ma >= 0) { c.check(got == (ma == 1), "agent-in-obstacle", "agent at %s margin %g: disc %s but in_obstacle says %d", vs(p).c_str(), m, ma ? "overlaps" : "is clear", got); c.cls(ma ? "agent in obstacle" : "agent clear"); }
}
static void groups(mon::Ctx& c) {
  auto& r = c.rng;
  std::vector<Spec> S; std::vector<Ob> O; int n = r.range(3, 7); double box = r.uni(2, 9);
  for (int i = 0; i < n; ++i) { S.push_back(mk(r, "m" + std::to_string(i), box, 6)); O.push_back(build(S[i], r)); c.describe(S[i].str()); }
  int k = r.range(1, n - 1);
  std::deque<Ob> m1(O.begin(), O.begin() + k), m2(O.begin() + k, O.end());
  auto mkAgg = [&](const std::deque<Ob>& m) { std::shared_ptr<lib::Aggregate> g; if (r.chance(0.5)) g = std::make_shared<lib::Aggregate>(m); else { g = std::make_shared<lib::Aggregate>(); for (auto& o : m) g->add_primitive(o, r.chance(0.5)); } return g; };
  auto g1 = mkAgg(m1), g2 = mkAgg(m2);
  auto verdict = [&](int lo, int hi, const Foot& f) { int v = 0; for (int i = lo; i < hi; ++i) { int q = mustIntersect(f, foot(S[i])); if (q == 1) return 1; if (q < 0) v = -1; } return v; };
  for (int i = k; i < n; ++i) {
    int must = verdict(0, k, foot(S[i])); bool any = false; for (int j = 0; j < k; ++j) any |= O[i]->is_intersecting(*O[j]);
    bool x = O[i]->is_intersecting(*g1), y = g1->is_intersecting(*O[i]);
    c.check(x == any, "ellipsoid-aggregate", "ellipsoid %d with aggregate: %d, with its members: %d", i, x, any);
    c.check(y == any, "aggregate-ellipsoid", "aggregate with ellipsoid %d: %d, with its members: %d", i, y, any);
    if (must >= 0) c.check(x == (must == 1), "aggregate-geometry", "ellipsoid %d and aggregate: reported %d", i, x);
    std::deque<Ob> list(O.begin(), O.begin() + k); r.chance(0.3) ? list.push_back(g1) : void();
    c.check(O[i]->is_intersecting(list) == any, "list", "ellipsoid with list: %d, with its elements: %d", !any, any);
    c.cls(any ? "ellipsoid meets aggregate" : "ellipsoid clear of aggregate"); c.note((double)S[i].pos.x); }
  bool any = false; for (int i = k; i < n; ++i) for (int j = 0; j < k; ++j) any |= O[i]->is_intersecting(*O[j]);
  c.check(g1->is_intersecting(*g2) == any && g2->is_intersecting(*g1) == any, "aggregate-aggregate", "aggregates: %d and %d, members: %d", (int)g1->is_intersecting(*g2), (int)g2->is_intersecting(*g1), any);
  c.cls(any ? "aggregates meet" : "aggregates clear");
  c.check(!O[0]->is_intersecting(std::deque<Ob>()), "list", "the empty list is reported as intersected");
  // an agent in an aggregate
  double m = r.uni(0, 1); V p = rd(randV(r, box)); lib::Agent ag = buildAgent(r, p, r.chance(.5) ? V() : rd(randV(r, 3)), m); double me = std::max(0.1, m);
  bool in = false; for (int j = 0; j < k; ++j) in |= ag.in_obstacle(*O[j]);
  int must = verdict(0, k, Foot{p.x, p.y, me, me, 0});
  c.check(ag.in_obstacle(*g1) == in, "agent-in-aggregate", "agent in aggregate: %d, in its members: %d", !in, in);
  if (must >= 0) c.check(in == (must == 1), "agent-in-aggregate", "agent at %s in aggregate: %d", vs(p).c_str(), in);
  c.cls(in ? "agent in aggregate" : "agent clear of aggregate");
}
// obstacles without a footprint of their own meet nothing
static void bare(mon::Ctx& c) {
  auto& r = c.rng; Spec s = mk(r, "e", 2, 3); auto e = build(s, r); std::deque<Ob> P{build(s, r)}; auto g = std::make_shared<lib::Aggregate>(std::deque<Ob>{build(s, r)}); std::vector<Ob> B{std::make_shared<lib::Obstacle>("base", lib::State(eig(s.pos)), r.uni(0, 1)), std::make_shared<lib::StarShapeHull>(P, r.chance(.5), 30)}; lib::Agent a = buildAgent(r, s.pos, V(), .5);
  for (auto& b : B) { c.check(!e->is_intersecting(*b) && !g->is_intersecting(*b) && !b->is_intersecting(*e) && !b->is_intersecting(*g), "bare", "an obstacle without footprint (%s) intersects something", b->get_type().c_str()); c.check(!a.in_obstacle(*b), "bare", "an agent is in an obstacle without footprint (%s)", b->get_type().c_str()); c.check(!e->is_intersecting(std::deque<Ob>(B.begin(), B.end())) && e->is_intersecting(std::deque<Ob>{b, P[0]}) && e->is_intersecting(std::deque<Ob>{P[0], b}), "bare", "lists with obstacles without footprint"); }
  c.cls("obstacle without footprint"); c.note((double)s.pos.x); c.describe(s.str()); }
static void run(mon::Ctx& c) { R k = c.rng.unit(); if (k < .03L) bare(c); else if (k < .8L) pairs(c); else groups(c); }
int main(int a, char** v) { dressUp() = 2; return mon::drive(a, v, "C04", run); }
