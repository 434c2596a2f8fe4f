// C14: metamorphic relations between runs of the real code on transformed scenes.
#include "modu.hpp"
struct Opt { bool pl; };
static V go(const Scene& sc, mon::Rng& r, bool pl, bool agg = false) { auto e = buildEnv(sc, r, agg); auto a = agentOf(sc, r); return vec(lib::Modulation::modulate_velocity(a, e, false, false, pl, sc.crit, sc.pw)); }
// general affine symmetry: p -> s*(S Q p) + t with S the optional mirror x -> -x applied first
struct Sym { bool mir = false; Q q; V t; R s = 1;
  V dir(V a) const { if (mir) a.x = -a.x; return qrot(q, a); } V pt(V a) const { return s * dir(a) + t; } V pseudo(V a) const { V b = dir(a); return mir ? -b : b; }
  Q ori(Q o) const { if (mir) o = Q{o.w, o.x, -o.y, -o.z}; return qmul(q, o); } };
static Scene image(const Scene& sc, const Sym& y) { Scene o = sc; o.x = rd(y.pt(sc.x)); o.v = rd(y.dir(sc.v)); o.m = (double)(y.s * sc.m); o.aq = rq(y.ori(sc.aq));
  for (auto& s : o.S) { s.pos = rd(y.pt(s.pos)); s.ref = rd(y.pt(s.ref)); s.q = rq(qunit(y.ori(s.q))); s.len = rd(y.s * s.len); s.margin = rd(y.s * s.margin); s.lin = rd(y.dir(s.lin)); s.ang = rd(y.pseudo(s.ang)); } return o; }
static void cmp(mon::Ctx& c, V got, V want, R tol, const char* key, const char* what) { c.check(norm(got - want) <= tol, key, "%s: %s expected %s (error %.3Lg, tolerance %.3Lg)", what, vs(got).c_str(), vs(want).c_str(), norm(got - want), tol); }
static void run(mon::Ctx& c) {
  auto& r = c.rng; int k = r.below(8); SceneOpt o; o.planar = r.chance(.4); o.nmax = 5; bool pl = false; if (k <= 2 && o.planar && r.chance(.5)) pl = true; if (k == 2) o.moving = false; if (k == 5) { o.where = r.range(0, 1); } if (k == 6) o.where = r.range(0, 1); if (k == 4 && r.chance(.3)) o.planar = true;
  Scene sc; if (!randScene(r, o, sc)) c.skip(); if (pl && norm(sc.v) < 1e-4L) sc.v = rd((R)(r.logu(1e-4, 1) / norm(sc.v)) * sc.v);  // a heading far below the resolution of the position is not carried by the library
  if (k != 6) { if (r.chance(.4)) sc.crit = r.uni(.3, 2.5); if (r.chance(.4)) sc.pw = r.uni(.5, 4); }
  c.describe(mon::fmt("relation %d planar_modulation %d ", k, pl) + sc.str());
  Scene used = sc; if (pl) { auto es = buildEnv(sc, r); auto a = agentOf(sc, r); for (auto& s : used.S) { auto ob = es[s.name]; ob->shift_reference_point(a); s.ref = vec(ob->get_reference_position());
      Foot f = foot(s); V d = sc.v; R nx = std::hypot(d.x, d.y); if (nx == 0) continue; R u0, v0, u1, v1; inFrame(f, sc.x.x, sc.x.y, u0, v0); inFrame(f, sc.x.x + d.x / nx, sc.x.y + d.y / nx, u1, v1); R du = u1 - u0, dv = v1 - v0, D = (u0 * dv - v0 * du) * (u0 * dv - v0 * du) / (du * du + dv * dv); if (std::fabs(D - 1) < 1e-6L) c.skip(); } }
  Out e = expect(used); if (!e.ok) { c.cls("left out: " + e.why); c.skip(); }
  V base = go(sc, r, pl); R tol = 2 * e.tol + 1e-9L * norm(base);
  switch (k) {
    case 0: case 1: case 2: { Sym y; y.mir = k == 1; if (o.planar && (pl || r.chance(.5))) { y.q = qyaw(r.uni(-3.14, 3.14)); y.t = rd(randV(r, 50)); y.t.z = pl ? 0 : r.uni(-20, 20); } else { y.q = randQ(r); y.t = rd(randV(r, 50)); } if (r.chance(.2)) y.q = Q{};
      if (k == 2) { y.s = r.logu(.02, 500); y.t = V(); y.q = Q{}; for (auto& s : sc.S) for (int i = 0; i < 3; ++i) if (s.len[i] * y.s < 2e-4L) c.skip(); }
      Scene im = image(sc, y); Scene usedIm = image(used, y); Out e2 = expect(usedIm); if (!e2.ok) c.skip(); V got = go(im, r, pl); tol += 2 * e2.tol; R amp = 1 + norm(y.t), thin = 1; for (auto& s : im.S) { V l = s.L(V()); for (int i = 0; i < 3; ++i) thin = std::min(thin, l[i]); } amp /= thin;
      // rounding the moved scene to doubles moves the distance values
      for (auto& p : e2.P) if (p.d > im.crit) tol += 1e-13L * amp * (1 + sc.pw) / std::min((R)1, p.d - im.crit) * (e.speed + norm(e.u)) * 100; 
      if (y.s == 1) for (auto& s : sc.S) tol += 1e-12L * amp * norm(s.ang) * 10;
      cmp(c, got, y.dir(base), tol, k == 0 ? "rigid-motion" : k == 1 ? "mirror" : "length-scale", k == 0 ? "scene moved rigidly" : k == 1 ? "scene mirrored" : "lengths scaled");
      c.cls(k == 0 ? (o.planar && std::fabs(y.q.x) + std::fabs(y.q.y) > 0 ? "plane scene tilted" : "moved rigidly") : k == 1 ? "mirrored" : "lengths scaled"); if (pl) c.cls("planar modulation"); break; }
    case 3: { R s = r.logu(1e-3, 1e3); Scene im = sc; im.v = rd(s * sc.v); for (auto& t : im.S) { t.lin = rd(s * t.lin); t.ang = rd(s * t.ang); } V got = go(im, r, false); cmp(c, got, s * base, s * tol, "velocity-scale", "velocities scaled"); c.cls("velocities scaled"); break; }
    case 4: { // names and order; with an aggregating environment in the plane
      bool agg = o.planar && r.chance(.5); Scene im = sc; auto nm = shuffledNames(r, sc.S.size()); for (size_t i = 0; i < nm.size(); ++i) im.S[i].name = nm[i]; std::vector<Spec> sh = im.S; r.shuffle(sh); im.S = sh;
      if (agg) { V b2 = go(sc, r, true && false, true), got = go(im, r, false, true); mon::Rng rr = r; auto e1 = buildEnv(sc, rr, true), e2 = buildEnv(im, rr, true); bool has = false; std::vector<R> d; R lever = 0; auto a = agentOf(sc, rr); for (auto& ob : e1.get_obstacle_list()) { has |= ob->get_type() == "Aggregate"; auto t = lib::Modulation::compute_modulation_matrix(a, *ob); lever = std::max(lever, (R)std::get<0>(t).norm()); d.push_back(std::get<2>(t)); if (std::fabs(d.back() - sc.crit) < 1e-6L) c.skip(); } if (!(lever < 1e3L)) c.skip(); (void)e2;
        if (!has) { cmp(c, got, b2, tol, "names", "renamed and reordered"); break; }
        // angle blending of near reversals is discontinuous: compare only when the first run is far from it
        auto wv = weightsOf(d, sc.crit, sc.pw); V u; size_t i = 0; for (auto& ob : e1.get_obstacle_list()) { u = u + (wv[i] * std::exp(-(std::max((R)1, d[i]) - 1))) * (vec(ob->get_linear_velocity()) + cross(vec(ob->get_angular_velocity()), sc.x - vec(ob->get_position()))); ++i; }
        V rel = sc.v - u; if (norm(rel) < 1e-4L) c.skip(); i = 0; for (auto& ob : e1.get_obstacle_list()) { auto M = std::get<0>(lib::Modulation::compute_modulation_matrix(a, *ob)); V q; for (int j = 0; j < 3; ++j) q[j] = (R)M(j, 0) * rel.x + (R)M(j, 1) * rel.y + (R)M(j, 2) * rel.z; if (norm(q) < 1e-5L * norm(rel)) c.skip(); if (dot(q, rel) < -.999L * norm(q) * norm(rel) && wv[i] < .999999L) c.skip(); ++i; }
        cmp(c, got, b2, 1e-6L * (norm(b2) + norm(rel) + norm(u)), "names-aggregate", "renamed and reordered with aggregation"); c.cls("renamed with aggregates"); break; }
      V got = go(im, r, false); cmp(c, got, base, tol, "names", "renamed and reordered"); c.cls(sc.S.size() > 1 ? "renamed and reordered" : "renamed"); break; }
    case 5: { if (e.critical == 0) c.skip(); Scene im = sc; SpecOpt so; so.planar = o.planar; so.moving = true; so.box = 12; int n = r.range(1, 4), added = 0; for (int i = 0; i < n; ++i) { Spec t = randSpec(r, mon::fmt("%cmore%d", 'a' + r.below(26), i), so); Part p = part(t, sc); if (p.d < sc.crit + 1e-3L || p.rel > 1e-6L || p.c < 1e-3L) continue; im.S.push_back(t); ++added; } if (!added) c.skip(); V got = go(im, r, false); cmp(c, got, base, tol, "far-obstacles", "obstacles beyond the critical distance added"); c.cls("irrelevant obstacles added"); break; }
    case 6: { if (e.critical == 0) c.skip(); V g = randV(r, 3); if (o.planar && r.chance(.5)) g.z = 0; g = rd(g); Scene im = sc; im.v = rd(sc.v + g); for (auto& t : im.S) t.lin = rd(t.lin + g); Out e2 = expect(im); if (!e2.ok) c.skip(); V got = go(im, r, false); cmp(c, got, base + g, tol + 2 * e2.tol + 1e-9L, "galilean", "common velocity added at a surface"); c.cls("common velocity added"); break; }
    default: { // the orientation of the agent plays no role in the plain mode, and the same scene built along other routes gives the same answer
      Scene im = sc; im.aq = rq(randQ(r)); V got = go(im, r, false); cmp(c, got, base, tol, "construction", "same scene built differently"); c.cls("built differently"); } }
  c.note((double)base.x); c.note((double)base.y);
}
int main(int a, char** v) { return mon::drive(a, v, "C14", run); }
