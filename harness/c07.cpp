// C07: hull surfaces against exact ray casting.
#include "hull.hpp"
typedef std::shared_ptr<lib::Obstacle> Ob;
struct Scene { std::vector<Spec> S; std::deque<Ob> O; R z; };
static Scene scene(mon::Rng& r, int kind) {
  Scene s; s.z = r.chance(0.6) ? 0 : (double)r.uni(-2, 2); int n = r.range(1, 6); if (r.chance(.05)) n = r.range(7, r.chance(.1) ? 50 : 20); double box = r.uni(0.5, 6);
  SpecOpt o; o.planar = true; o.lmin = 0.3; o.lmax = 3; o.shiftRef = r.chance(.4);
  R cx = 0, cy = 0; if (r.chance(0.5)) { cx = r.uni(-20, 20); cy = r.uni(-20, 20); }
  if (kind == 1) { // a room: walls around the centre, perhaps with a gap
    n = r.range(4, 8); R rad = r.uni(2, 6); bool gap = r.chance(0.4); R off = r.uni(0, 6.28);
    for (int i = 0; i < n - gap; ++i) { Spec w = randSpec(r, "w" + std::to_string(i), o); R a = off + 2 * PI * i / n; w.pos = rd(V(cx + rad * std::cos(a), cy + rad * std::sin(a), s.z)); w.q = rq(qyaw(a + PI / 2)); w.len = rd(V(rad * PI / n * r.uni(1.1, 1.5), r.uni(0.2, 0.6), 1)); w.ref = w.pos; s.S.push_back(w); } }
  else for (int i = 0; i < n; ++i) { o.box = box; Spec w = randSpec(r, "p" + std::to_string(i), o); V at = w.pos; w.pos = rd(V(cx + w.pos.x, cy + w.pos.y, s.z)); w.ref = rd(w.ref + (w.pos - at)); if (r.chance(0.1)) w.q = Q{}; s.S.push_back(w); }
  for (auto& w : s.S) s.O.push_back(build(w, r));
  return s; }
static HullOracle oracle(const Scene& s, V ref, bool inner, R minr) { HullOracle h; for (auto& w : s.S) h.F.push_back(foot(w)); h.rx = ref.x; h.ry = ref.y; h.inner = inner; h.minr = minr; return h; }
static V meanPos(const Scene& s) { V m; for (auto& w : s.S) m = m + w.pos; return (R)(1.0L / s.S.size()) * m; }
static bool nearEdge(const Scene& s, V ref) { for (auto& w : s.S) if (std::fabs(fval(foot(w), ref.x, ref.y) - 1) < 1e-3L) return true; return false; }
struct Dir { V p; R th, rho; };
static Dir query(mon::Rng& r, V ref, R rho, R yaw = 0) {
  Dir d; int k = r.below(yaw != 0 ? 8 : 7);
  V p;
  if (k == 0) { p = ref + V(-rho, 0, 0); p = rd(p); p.y = ref.y; }               // exactly to the left: the seam
  else if (k == 1) { R e = r.logu(1e-9, 3e-2) * r.sgn(); p = rd(ref + V(-rho * std::cos(e), rho * std::sin(e), 0)); }  // near the seam
  else if (k == 7) { R e = yaw + PI + r.logu(1e-9, 3e-2) * r.sgn(); p = rd(ref + V(rho * std::cos(e), rho * std::sin(e), 0)); }  // the seam of a turned hull
  else if (k == 2) { p = ref; int j = r.below(2); p[j] = (double)(ref[j] + r.sgn() * rho); }
  else { R a = r.uni(-3.14159265, 3.14159265); p = rd(ref + V(rho * std::cos(a), rho * std::sin(a), 0)); }
  d.p = p; d.th = std::atan2(p.y - ref.y, p.x - ref.x); d.rho = std::hypot(p.x - ref.x, p.y - ref.y); return d; }
static void normalCheck(mon::Ctx& c, const HullOracle& h, const Dir& d, R step, V n, const char* who) {
  c.check(std::fabs(norm(n) - 1) < 1e-9L, "normal-unit", "%s: normal %s of length %.9Lg at %s", who, vs(n).c_str(), norm(n), vs(d.p).c_str());
  bool sm, sw; R lo, hi, nlo, nhi; h.range(d.th, 5.2L * step, lo, hi, &sw); h.range(d.th, 3.2L * step, lo, hi, &sm, &nlo, &nhi); if (!sm || !sw || nhi - nlo > 0.5L) return; // an edge leaks through the smoothing with a factor 0.05 per sample
  // normal direction up to sign, relative to the ray
  R ang = std::remainder(std::atan2(n.y, n.x) - d.th, PI); R mid = (nlo + nhi) / 2, half = (nhi - nlo) / 2; R dd = std::fabs(std::remainder(ang - mid, PI));
  c.check(dd < half * 1.3L + 0.02L && std::fabs(n.z) < 1e-9L, "normal", "%s: normal %s at %s is %.4Lg rad away from perpendicular (window half width %.4Lg)", who, vs(n).c_str(), vs(d.p).c_str(), dd, half);
  c.cls("normal compared"); if (std::fabs(std::fabs(d.th) - PI) < step) c.cls("normal compared at the seam"); }
static void hulls(mon::Ctx& c) {
  auto& r = c.rng; bool inner = r.chance(0.5); unsigned res = r.chance(0.4) ? 500 : r.chance(.04) ? r.range(700, 3000) : r.range(16, 700); double minr = r.chance(0.5) ? 0.5 : r.uni(0.05, 1.5);
  int hist = r.range(1, 3);
  std::shared_ptr<lib::StarShapeHull> H; R yaw = 0;
  Scene s; V lastRef;
  for (int k = 0; k < hist; ++k) {
    bool in_place = k && H && !s.S.empty() && r.chance(.5); if (in_place) { int i = r.below(s.S.size()); c.describe(" member " + tweak(s.S[i], static_cast<lib::Ellipsoid&>(*s.O[i]), r, true)); c.cls("hull recomputed after a member changed in place"); } else s = scene(r, r.below(2));
    V ref = meanPos(s); bool given = r.chance(0.5); if (in_place && r.chance(.6)) { given = true; ref = lastRef; ref.z = s.z; } else
    if (given) { V d = rd(randV(r, 1.0)); ref = rd(ref + V(d.x, d.y, 0)); } else ref.z = s.z;
    if (nearEdge(s, ref)) continue;
    for (auto& w : s.S) c.describe(w.str());
    for (auto& w : s.S) if (norm(w.ref - w.pos) > 0) { c.cls("members with shifted reference points"); break; } c.describe(mon::fmt(" reference %s inner %d resolution %u min %g round %d;", vs(ref).c_str(), inner, res, minr, k));
    if (!H) { if (given || r.chance(0.5)) { H = std::make_shared<lib::StarShapeHull>(inner, res, minr); if (r.chance(.3)) { yaw = r.uni(-3.1, 3.1); H->set_orientation(eq(qyaw(yaw))); c.describe(mon::fmt(" hull turned by %.17Lg;", yaw)); } if (given) H->compute_from_primitives(s.O, eig(ref)); else H->compute_from_primitives(s.O); } else H = std::make_shared<lib::StarShapeHull>(s.O, inner, res, minr); }
    else { c.cls("recomputed hull"); if (r.chance(0.3)) { res = r.chance(.04) ? r.range(700, 3000) : r.range(16, 700); H->set_resolution(res); } if (given) H->compute_from_primitives(s.O, eig(ref)); else H->compute_from_primitives(s.O); }
    if (yaw != 0) c.cls("turned hull");
    if (!given) { c.check(dist(H->get_reference_position(), ref) < 1e-12L * 100, "reference", "hull reference point is not the mean of the positions"); ref = vec(H->get_reference_position()); }
    lastRef = ref;
    c.check(dist(H->get_reference_position(), ref) == 0 && dist(H->get_position(), ref) == 0, "reference", "hull reference point or position differs from the one given");
    HullOracle h = oracle(s, ref, inner, minr); R step = 2 * PI / (res - 1);
    R glo, ghi, gap; h.survey(glo, ghi, gap);
    for (int n = 0; n < 25; ++n) {
      R rho = r.chance(0.3) ? (R)r.uni(0.05, 12) : 0; Dir d = query(r, ref, rho > 0 ? rho : 1, yaw); R lo, hi; h.range(d.th, 3.2L * step, lo, hi); R slack = (ghi - glo) * 2e-4L + 1e-9L;
      if (rho == 0) { R mid = (lo + hi) / 2 * (R)r.uni(0.9, 1.1); V p = rd(V(ref.x + mid * (d.p.x - ref.x) / d.rho, ref.y + mid * (d.p.y - ref.y) / d.rho, ref.z)); if (d.p.y == ref.y) p.y = ref.y; if (d.p.x == ref.x) p.x = ref.x; d.p = p; d.th = std::atan2(p.y - ref.y, p.x - ref.x); d.rho = std::hypot(p.x - ref.x, p.y - ref.y); }
      d.p.z = ref.z;
      double dd = static_cast<lib::Obstacle&>(*H).compute_distance_to_point(eig(d.p)); R Rad = inner ? dd * d.rho : d.rho / dd;
      c.check(Rad >= lo - slack && Rad <= hi + slack && Rad >= minr * (1 - 1e-9L), "radius", "%s hull (resolution %u) towards %.6Lg rad: radius %.9Lg, exact surface between %.9Lg and %.9Lg, minimum %g", inner ? "inner" : "outer", res, d.th, Rad, lo, hi, minr);
      bool in = H->point_is_inside(eig(d.p));
      if (std::fabs(d.rho / Rad - 1) > 1e-9L) c.check(in == (d.rho < Rad), "containment", "point at %.9Lg of radius %.9Lg reported %s", d.rho, Rad, in ? "inside" : "outside");
      lib::Agent ag = buildAgent(r, d.p, r.chance(.8) ? V() : rd(randV(r, 2)), r.chance(.7) ? 0 : r.uni(0, 1.5));
      c.near(H->compute_distance_to_agent(ag), dd, 1e-12 * (1 + dd), "distance", "distance to agent differs from distance to point");
      normalCheck(c, h, d, step, vec(H->compute_normal_to_agent(ag)), inner ? "inner hull" : "outer hull");
      c.cls(inner ? "inner hull radius" : "outer hull radius"); if (hi > lo * 1.2L) c.cls("window across an edge"); if (std::fabs(std::fabs(d.th) - PI) < step) c.cls("direction at the seam"); if (lo <= minr * 1.0001L) c.cls("clamped to the minimum radius"); c.note((double)Rad); }
    { // closed if no direction comes near the minimum
      if (glo > 1.25L * minr) { c.check(H->is_closed(), "closed", "hull nowhere nearer than %.6Lg (minimum %g) reported open", glo, minr); c.cls("closed hull"); } }
    if (gap > 10 * step) { c.check(!H->is_closed(), "closed", "hull with a gap of %.3Lg rad reported closed", gap); c.cls("hull with a gap"); }
  }
}
static void aggregates(mon::Ctx& c) {
  auto& r = c.rng; Scene s = scene(r, r.below(2)); if (s.S.size() < 2) c.skip(); std::shared_ptr<lib::Aggregate> A; int route = r.below(4);
  for (auto& w : s.S) c.describe(w.str());
  if (route == 0) A = std::make_shared<lib::Aggregate>(s.O);
  else if (route == 1) { A = std::make_shared<lib::Aggregate>(); for (auto& o : s.O) A->add_primitive(o); }
  else if (route == 2) { A = std::make_shared<lib::Aggregate>(); for (auto& o : s.O) A->add_primitive(o, false); A->update_hull(); }
  else { auto l = lib::Aggregation::aggregate_obstacles(s.O); if (l.size() != 1 || l[0]->get_type() != "Aggregate") c.skip(); A = std::static_pointer_cast<lib::Aggregate>(l[0]); c.cls("aggregate made by aggregation"); }
  V ref = meanPos(s); c.check(dist(A->get_reference_position(), ref) < 1e-11L, "reference", "aggregate reference point not at the mean"); ref = vec(A->get_reference_position());
  if (r.chance(0.2)) { V d = rd(randV(r, 0.7)); ref = rd(ref + V(d.x, d.y, 0)); A->set_reference_position(eig(ref)); A->update_hull(); for (auto& o : s.O) c.check(dist(o->get_reference_position(), ref) == 0, "reference", "the members do not follow the aggregate's reference point"); c.cls("reference moved"); }
  for (int more = r.chance(.4) ? r.range(1, 3) : 0;; --more) {
  if (nearEdge(s, ref)) c.skip();
  HullOracle ho = oracle(s, ref, false, 0.5), hi_ = oracle(s, ref, true, 0.5); R step = 2 * PI / 499; R ghi, glo, gap; ho.survey(glo, ghi, gap);
  R slack = ghi * 2e-4L + 1e-9L;
  for (int n = 0; n < (more ? 8 : 25); ++n) {
    Dir d = query(r, ref, r.chance(0.5) ? (R)r.uni(0.05, 8) : ho.radius(r.uni(0, 6.28)) * (R)r.uni(0.7, 1.4)); d.p.z = ref.z; R olo, ohi, ilo, ihi; ho.range(d.th, 3.2L * step, olo, ohi); hi_.range(d.th, 3.2L * step, ilo, ihi);
    bool member = false, edge = false; for (auto& w : s.S) { R f = fval(foot(w), d.p.x, d.p.y); member |= f <= 1; edge |= std::fabs(f - 1) < 1e-6L; } if (edge) continue;
    int inside = member || d.rho < olo - slack ? 1 : d.rho > ohi + slack ? 0 : -1; if (inside < 0) { c.cls("within the hull's resolution"); continue; }
    bool got = A->point_is_inside(eig(d.p)); c.check(got == (inside == 1), "aggregate-containment", "point %s at %.9Lg, outer hull between %.9Lg and %.9Lg, in a member %d, reported %s", vs(d.p).c_str(), d.rho, olo, ohi, member, got ? "inside" : "outside");
    double dd = static_cast<lib::Obstacle&>(*A).compute_distance_to_point(eig(d.p)); R Rad = inside ? dd * d.rho : d.rho / dd, lo = inside ? ilo : olo, hi = inside ? ihi : ohi;
    c.check(Rad >= lo - slack && Rad <= hi + slack, "aggregate-distance", "point %s is %s the aggregate; distance %.9g means a surface at %.9Lg, exact %.9Lg to %.9Lg", vs(d.p).c_str(), inside ? "inside" : "outside", dd, Rad, lo, hi);
    lib::Agent ag = buildAgent(r, d.p, r.chance(.8) ? V() : rd(randV(r, 2)), r.chance(.7) ? 0 : r.uni(0, 1.5)); c.near(A->compute_distance_to_agent(ag), dd, 1e-12 * (1 + dd), "aggregate-distance", "distance to agent differs from distance to point");
    normalCheck(c, inside ? hi_ : ho, d, step, vec(A->compute_normal_to_agent(ag)), inside ? "aggregate from inside" : "aggregate from outside");
    c.cls(inside ? (member ? "inside a member" : "inside the aggregate") : "outside the aggregate"); c.note((double)Rad); }
  if (glo > 0.625L) { c.check(A->is_closed(), "closed", "aggregate with outer hull nowhere nearer than %.6Lg reported open", glo); c.cls("closed aggregate"); }
  if (gap > 10 * step) { c.check(!A->is_closed(), "closed", "aggregate with a gap of %.3Lg rad reported closed", gap); c.cls("aggregate with a gap"); }
  if (!more) break;
  for (int q = r.range(1, 2); q--;) { int i = r.below(s.S.size()); c.describe(" then " + s.S[i].name + " " + tweak(s.S[i], static_cast<lib::Ellipsoid&>(*s.O[i]), r, true) + " " + s.S[i].str()); } A->update_hull(); c.cls("members changed in place and hull updated"); }
}
static void run(mon::Ctx& c) { if (c.rng.chance(0.55)) hulls(c); else aggregates(c); }
int main(int a, char** v) { dressUp() = 2; return mon::drive(a, v, "C07", run); }
