// C03: plan-view footprint of ellipsoids.
#include "scene.hpp"
// Carlson's symmetric integrals by duplication
static R RF(R x, R y, R z) { R A = (x + y + z) / 3; for (int i = 0; i < 400; ++i) { R l = std::sqrt(x) * std::sqrt(y) + std::sqrt(y) * std::sqrt(z) + std::sqrt(z) * std::sqrt(x); x = (x + l) / 4; y = (y + l) / 4; z = (z + l) / 4; A = (x + y + z) / 3; if (std::fabs(x - A) + std::fabs(y - A) + std::fabs(z - A) < 1e-10L * A) break; } return 1 / std::sqrt(A); }
static R RD(R x, R y, R z) { R s = 0, f = 1, A = 0; for (int i = 0; i < 400; ++i) { R l = std::sqrt(x) * std::sqrt(y) + std::sqrt(y) * std::sqrt(z) + std::sqrt(z) * std::sqrt(x); s += f / (std::sqrt(z) * (z + l)); f /= 4; x = (x + l) / 4; y = (y + l) / 4; z = (z + l) / 4; A = (x + y + 3 * z) / 5; if (std::fabs(x - A) + std::fabs(y - A) + std::fabs(z - A) < 1e-10L * A) break; } return 3 * s + f / (A * std::sqrt(A)); }
static R exactArea(V l) { R v[3] = {l.x * l.y, l.x * l.z, l.y * l.z}; for (auto& q : v) q *= q; std::sort(v, v + 3); R x = v[0], y = v[1], z = v[2]; // 4 pi RG; z the largest
  R g = (z * RF(x, y, z) - (x - z) * (y - z) * RD(x, y, z) / 3 + std::sqrt(x) * std::sqrt(y) / std::sqrt(z)) / 2; return 4 * PI * g; }
static R trueArea(V l) {  // surface of an ellipsoid by quadrature
  const int N = 160; R s = 0;
  for (int i = 0; i < N; ++i) { R th = PI * (i + 0.5L) / N, st = std::sin(th), ct = std::cos(th);
    for (int j = 0; j < N; ++j) { R ph = (PI / 2) * (j + 0.5L) / N, sp = std::sin(ph), cp = std::cos(ph);
      R q = l.y * l.z * st * cp, w = l.x * l.z * st * sp, e = l.x * l.y * ct;
      s += st * std::sqrt(q * q + w * w + e * e); } }
  return s * (PI / N) * (PI / 2 / N) * 4; }
static void judge(mon::Ctx& c, const Spec& s, const std::shared_ptr<lib::Ellipsoid>& e, mon::Rng& r) {
  R yaw = 2 * std::atan2(s.q.z, s.q.w);
  R a = s.len.x + s.margin.x, b = s.len.y + s.margin.y; R scale = 1 + norm(s.pos) + a + b;
  auto loc = [&](V p) { V l = qinv(s.q, p - s.pos); return l; };
  auto fval = [&](V p) { V l = loc(p); return l.x * l.x / (a * a) + l.y * l.y / (b * b); };
  // containment
  for (int n = 0; n < 12; ++n) {
    R t = r.uni(0, 6.2831853), k = r.chance(0.5) ? (R)r.uni(0.95, 1.05) : (R)r.uni(0, 3); if (r.chance(0.2)) t = r.below(8) * PI / 4;
    V p = rd(s.world(V(k * a * std::cos(t), k * b * std::sin(t), 0))); p.z = r.chance(0.5) ? (double)s.pos.z : r.uni(-5, 5); V was = p; p = oddly(r, p, .15); if (p.x != was.x || p.y != was.y) c.cls("point with exact coordinates");
    R f = fval(p); if (std::fabs(f - 1) < 1e-13L * scale * scale / std::min(a, b) / std::min(a, b) * 10 + 1e-12L) continue;
    bool got = e->point_is_inside(eig(p));
    c.check(got == (f <= 1), "contains", "point %s level %.12Lg reported %s", vs(p).c_str(), f, got ? "inside" : "outside");
    c.cls(f <= 1 ? "point inside" : "point outside"); c.note((double)f); }
  // contour
  for (int w = 0; w < 2; ++w) {
    bool with = w; unsigned n = r.chance(0.3) ? 100 : r.chance(.01) ? r.range(200, 5000) : r.range(3, 200); R ka = with ? a : s.len.x, kb = with ? b : s.len.y;
    Eigen::MatrixXd m = e->sample_from_parameterization(n, with);
    c.check(m.rows() == 3 && m.cols() == (int)n, "contour-size", "%d x %d samples for %u", (int)m.rows(), (int)m.cols(), n);
    R prev = 0, total = 0, step0 = 0;
    R tol = 1e-12L * scale / std::min(ka, kb) + 1e-12L;
    for (unsigned i = 0; i < n; ++i) {
      V l = loc(V(m(0, i), m(1, i), s.pos.z)); R x = l.x / ka, y = l.y / kb;
      c.check(std::fabs(std::sqrt(x * x + y * y) - 1) < tol, "contour-on", "sample %u of %u (%s margin) is off the boundary: level %.12Lg", i, n, with ? "with" : "without", x * x + y * y);
      R t = std::atan2(y, x);
      if (i) { R d = std::remainder(t - prev, 2 * PI); if (n == 3 && std::fabs(std::fabs(d) - PI) < 1e-9L) d = std::fabs(d); total += d; if (i == 1) step0 = d;
        c.check(std::fabs(d - step0) < 1e-6L + 10 * tol, "contour-step", "step %u is %.12Lg, the first %.12Lg", i, d, step0); }
      prev = t; }
    c.check(std::fabs(std::fabs(total) - 2 * PI) < 1e-6L + 10 * tol, "contour-once", "the contour turns by %.12Lg", total);
    c.cls(with ? "contour with margin" : "contour without margin"); }
  if (std::fabs(std::fabs(yaw) - PI) < 1e-9L || std::fabs(yaw) < 1e-9L) c.cls("yaw 0 or 180 degrees");
  if (yaw < 0) c.cls("negative yaw");
  // line crossings
  for (int n = 0; n < 12; ++n) {
    R th = r.uni(0, 6.2831853); int al = r.below(4);
    if (al == 0) th = r.below(8) * PI / 4;                       // world axes
    if (al == 1) th = yaw + r.below(4) * PI / 2;                  // local axes
    V d(std::cos(th), std::sin(th), 0), nn(-d.y, d.x, 0);
    V q0 = s.pos; R off = r.uni(-1.3, 1.3) * std::max(a, b); if (r.chance(0.1)) off = 0;
    V x1 = rd(q0 + off * nn + (R)r.uni(-10, 10) * d); V x2 = rd(x1 + (R)(r.sgn() * r.logu(1e-2, 5)) * d);
    x1.z = x2.z = r.chance(0.5) ? (double)s.pos.z : r.uni(-3, 3); if (r.chance(0.3)) x2.z = r.uni(-3, 3);
    if (al == 1 && r.chance(0.5)) { x1 = rd(x1); }
    V l1 = loc(V(x1.x, x1.y, s.pos.z)), l2 = loc(V(x2.x, x2.y, s.pos.z));
    R X = l1.x / a, Y = l1.y / b, DX = (l2.x - l1.x) / a, DY = (l2.y - l1.y) / b;
    R A = DX * DX + DY * DY, B = X * DX + Y * DY, CC = X * X + Y * Y - 1, disc = (B * B - A * CC) / A;  // disc = 1 - (distance to centre)^2 in the unit-circle frame
    R cond = scale * scale / (std::min(a, b) * std::hypot(x2.x - x1.x, x2.y - x1.y)) * 1e-15L * 100;
    if (std::fabs(disc) < 1e-7L + 10 * cond) continue;
    auto res = e->compute_interesection_points(eig(x1), eig(x2));
    bool par = std::fabs(l2.x - l1.x) < 1e-9L * std::hypot(l2.x - l1.x, l2.y - l1.y);
    c.check(res.first == (disc > 0), "crossing", "line %s -> %s %s the ellipse (%.6Lg) but is reported as %s", vs(x1).c_str(), vs(x2).c_str(), disc > 0 ? "meets" : "misses", disc, res.first ? "crossing" : "not crossing");
    c.cls(disc > 0 ? "line crossing" : "line missing"); if (par) c.cls("line parallel to the local y axis");
    if (disc > 0) {
      R sq = std::sqrt(disc / A), t1 = -B / A - sq, t2 = -B / A + sq;
      V w1 = x1 + t1 * (x2 - x1), w2 = x1 + t2 * (x2 - x1); V g1 = vec(res.second.first), g2 = vec(res.second.second);
      auto d2 = [](V p, V q) { return std::hypot(p.x - q.x, p.y - q.y); };
      R er = std::min(std::max(d2(g1, w1), d2(g2, w2)), std::max(d2(g1, w2), d2(g2, w1)));
      c.check(er < (1e-9L + cond / std::sqrt(disc)) * scale, "crossing-points", "line %s -> %s: points %s %s expected %s %s", vs(x1).c_str(), vs(x2).c_str(), vs(g1).c_str(), vs(g2).c_str(), vs(w1).c_str(), vs(w2).c_str()); }
    c.note((double)disc); }
  for (int w = 0; w < 2; ++w) {
    V l = w ? s.len + s.margin : s.len; R t = exactArea(l); double got = e->area(w), ratio = (double)(std::max(l.x, std::max(l.y, l.z)) / std::min(l.x, std::min(l.y, l.z)));
    if (c.id % 200 == 0 && ratio < 20) c.check(std::fabs(trueArea(l) / t - 1) < 1e-4L, "area-oracle", "the two ways of computing the true area of %s differ", vs(l).c_str());
    if (ratio > 50) c.cls("area of a needle or a disc");
    c.check(std::fabs(got / t - 1) < 0.0135L, "area", "area %.9g of lengths %s (%s margin), true %.9Lg", got, vs(l).c_str(), w ? "with" : "without", t); c.cls("area"); if (w == 1 && norm(s.margin) > 0) c.cls("area with margin"); }
}
static void run(mon::Ctx& c) {
  auto& r = c.rng;
  SpecOpt o; o.planar = true; o.box = r.chance(0.2) ? r.chance(.1) ? 1e4 : 100 : 8; o.lmin = r.chance(0.2) ? r.chance(.2) ? .002 : .02 : 0.3; o.lmax = r.chance(0.2) ? r.chance(.2) ? 400 : 40 : 3;
  Spec s = randSpec(r, "e", o); s.pos.z = rd(V(r.uni(-2, 2))).x; if (r.chance(0.5)) s.pos.z = 0;
  auto e = build(s, r); c.describe(s.str()); bool again = r.chance(.35); mon::Rng keep = r;
  judge(c, s, e, r);
  for (int k = 0; again && k < 2; ++k) { mon::Rng r2 = keep; std::string what = tweak(s, *e, r, true); c.describe(" then " + what + " " + s.str()); c.cls("asked again after one attribute changed"); judge(c, s, e, r2); }
}
int main(int a, char** v) { dressUp() = 2; return mon::drive(a, v, "C03", run); }
