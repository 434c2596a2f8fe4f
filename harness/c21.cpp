// C21: contracts of the numeric utilities.
#include "scene.hpp"
namespace mt = lib::MathTools;
static double num(mon::Rng& r) { switch (r.below(5)) { case 0: return r.range(-5, 5); case 1: return r.sgn() * r.logu(1e-12, 1e12); default: return r.uni(-10, 10); } }
static void lin(mon::Ctx& c) { auto& r = c.rng; double a = num(r), b = num(r); int n = r.chance(.02) ? r.range(300, 20000) : r.range(2, 300); if (r.chance(.002)) n = r.range(32700, 70000); if (r.chance(.2)) n = 2; if (r.chance(.05)) b = a; c.describe(mon::fmt("linspace(%.17g,%.17g,%d)", a, b, n));
  auto v = mt::linspace(a, b, n); c.check((int)v.size() == n, "linspace-size", "%d points instead of %d", (int)v.size(), n); c.check(v.front() == a && v.back() == b, "linspace-ends", "ends %.17g %.17g", v.front(), v.back());
  R sc = std::fabs((R)a) + std::fabs((R)b); for (int i = 0; i < n; ++i) c.near(v[i], (double)(a + ((R)b - a) * i / (n - 1)), (double)(4e-15L * sc + 1e-300L), "linspace-even", mon::fmt("point %d", i).c_str()); c.note(a); c.note(b); c.cls("linspace"); }
static void refuse(mon::Ctx& c) { auto& r = c.rng; int n = r.range(-5, 1); bool ok = false; int what = r.below(4); c.describe(mon::fmt("refusal %d with %d points", what, n));
  try { if (what == 0) mt::linspace(0, 1, n); else if (what == 1) mt::gridspace({0, 0}, {1, 1}, {n, 3}); else if (what == 2) mt::gridspace({0, 0}, {1, 1}, {3, n}); else lib::Ellipsoid("e").sample_from_parameterization(std::max(n, 0), false); }
  catch (const std::exception&) { ok = true; }
  catch (const std::exception*) { c.fail("refusal-type", "a pointer was thrown instead of an exception"); }
  c.check(ok, "refusal", "%d points not refused", n); c.cls("too few points refused"); c.note(n * 4 + what); }
static void grid(mon::Ctx& c) { auto& r = c.rng; int n = r.range(2, 12), m = r.range(2, 12); if (r.chance(.02)) { n = r.range(2, 300); m = r.range(2, 300); if (r.chance(.3)) (r.chance(.5) ? n : m) = r.range(300, 3000), (n > m ? m : n) = r.range(2, 9); } double a = num(r), b = num(r), d = num(r), e = num(r); c.describe(mon::fmt("gridspace %d x %d", n, m)); auto g = mt::gridspace({a, b}, {d, e}, {n, m}); c.check((int)g.size() == n * m, "grid-size", "%d points for %d x %d", (int)g.size(), n, m);
  R s1 = std::fabs((R)a) + std::fabs((R)d), s2 = std::fabs((R)b) + std::fabs((R)e);
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { c.near(g[i * m + j](0), (double)(a + ((R)d - a) * i / (n - 1)), (double)(4e-15L * s1 + 1e-300L), "grid", "first coordinate"); c.near(g[i * m + j](1), (double)(b + ((R)e - b) * j / (m - 1)), (double)(4e-15L * s2 + 1e-300L), "grid", "second coordinate"); } c.note(a); c.note(n * 100 + m); c.cls(n == m ? "square grid" : "oblong grid"); }
static void polar(mon::Ctx& c) { auto& r = c.rng; V v = rd(r.logu(1e-6, 1e6) * randDir(r)); int k = r.below(6); if (k == 0) { int j = r.below(3); V w; w[j] = v[j]; v = w; c.cls("vector on an axis"); } if (k == 1) v[r.below(3)] = 0; if (k == 2 && r.chance(.3)) { v = V(); c.cls("zero vector"); } if (k == 3) { v = V(-std::fabs(v.x), r.chance(.5) ? 0 : r.sgn() * 1e-9 * std::fabs((double)v.x), v.z); v = rd(v); c.cls("azimuth near 180 degrees"); }
  c.describe("polar of " + vs(v)); V p = vec(mt::cartesian_to_polar(eig(v))); R n = norm(v); c.check(std::fabs(p.x - n) <= 1e-14L * n, "polar-radius", "radius %.17Lg of %s", p.x, vs(v).c_str()); c.check(p.y >= 0 && p.y <= PI + 1e-15L && p.z > -PI - 1e-15L && p.z <= PI + 1e-15L, "polar-range", "angles %.17Lg %.17Lg of %s", p.y, p.z, vs(v).c_str());
  R st = std::hypot(v.x, v.y); if (n > 0) { c.check(std::fabs(p.y - std::atan2(st, v.z)) < 3e-8L, "polar-inclination", "inclination %.17Lg of %s", p.y, vs(v).c_str()); } if (st > 0) c.check(std::fabs(std::remainder(p.z - std::atan2(v.y, v.x), 2 * PI)) < 1e-14L, "polar-azimuth", "azimuth %.17Lg of %s", p.z, vs(v).c_str());
  V b = vec(mt::polar_to_cartesian(eig(p))); c.check(norm(b - v) <= 5e-8L * n, "polar-round-trip", "%s came back as %s", vs(v).c_str(), vs(b).c_str());
  R rad = r.logu(1e-3, 1e3), th = r.uni(.01, 3.13), ph = r.uni(-3.14, 3.14); if (r.chance(.1)) ph = r.uni(-7, 7); V q = rd(V(rad, th, ph)); V cc = vec(mt::polar_to_cartesian(eig(q))); V want(q.x * std::sin(q.y) * std::cos(q.z), q.x * std::sin(q.y) * std::sin(q.z), q.x * std::cos(q.y)); c.check(norm(cc - want) < 1e-14L * q.x * 10, "to-cartesian", "%s became %s expected %s", vs(q).c_str(), vs(cc).c_str(), vs(want).c_str()); V back = vec(mt::cartesian_to_polar(eig(cc))); if (std::fabs(ph) < 3.14L) c.check(norm(back - q) < 1e-9L * (1 + q.x), "polar-round-trip", "polar %s came back as %s", vs(q).c_str(), vs(back).c_str()); c.note((double)v.x); c.note((double)v.y); c.cls("polar"); }
static void rnd(mon::Ctx& c) { auto& r = c.rng; double a = num(r), b = num(r); if (std::fabs(a) > 1e9 || std::fabs(b) > 1e9) c.skip(); bool one = r.chance(.3); if (one) b = 0; double lo = std::min(a, b), hi = std::max(a, b); srand(r.next()); int N = 400; std::vector<int> bin(4, 0); c.describe(mon::fmt("rand_float(%.17g,%.17g)", a, b));
  for (int i = 0; i < N; ++i) { double x = one ? mt::rand_float(a) : mt::rand_float(a, b); double eps = 1e-15 * (std::fabs(a) + std::fabs(b)); c.check(x >= lo - eps && x <= hi + eps, "rand-range", "rand_float(%.17g,%.17g) gave %.17g", a, b, x); if (hi > lo) bin[std::min(3, std::max(0, (int)(4 * (x - lo) / (hi - lo))))]++; }
  if (hi - lo > 1e-9 * (std::fabs(a) + std::fabs(b))) for (int k = 0; k < 4; ++k) c.check(bin[k] > 30, "rand-spread", "quarter %d of the range hit %d of %d times", k, bin[k], N); c.note(a); c.note(b); c.cls("random floats"); }
static void sorts(mon::Ctx& c) { auto& r = c.rng; int rows = r.range(2, 5), n = r.chance(.03) ? r.range(30, 800) : r.range(0, 30); Eigen::MatrixXd A(rows, n); for (int i = 0; i < n; ++i) for (int j = 0; j < rows; ++j) A(j, i) = j == 0 ? i : r.chance(.3) ? r.range(-2, 2) : r.uni(-4, 4); c.describe(mon::fmt("sort %d x %d", rows, n)); Eigen::MatrixXd B = lib::MathTools::sorted_cols_by_theta(A); c.check(B.rows() == rows && B.cols() == n, "sort-size", "size changed"); std::set<int> seen;
  for (int i = 0; i < n; ++i) { int k = (int)B(0, i); c.check(k >= 0 && k < n && seen.insert(k).second, "sort-permutation", "column %d repeated or invented", k); for (int j = 0; j < rows; ++j) c.check(B(j, i) == A(j, k), "sort-permutation", "column content changed"); if (i) c.check(B(1, i - 1) <= B(1, i), "sort-order", "not ascending"); } c.note(n); if (n) c.note(A(1, 0)); c.cls("columns sorted");
  if (n > 1) c.check(mt::compare_theta(A.col(0), A.col(1)) == (A(1, 0) < A(1, 1)), "compare", "compare_theta"); }
static void closest(mon::Ctx& c) { auto& r = c.rng; int n = r.chance(.03) ? r.range(40, 3000) : r.range(1, 40); unsigned idx = r.below(3); Eigen::MatrixXd A(3, n); std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back(r.chance(.2) ? r.range(-3, 3) : r.uni(-3.14159, 3.14159)); std::sort(v.begin(), v.end()); for (int i = 0; i < n; ++i) { for (int j = 0; j < 3; ++j) A(j, i) = r.uni(-4, 4); A(idx, i) = v[i]; }
  E3 p(r.uni(-4, 4), r.uni(-4, 4), r.uni(-4, 4)); if (r.chance(.3)) p(idx) = v[r.below(n)]; if (r.chance(.15)) p(idx) = v[n - 1] + r.logu(1e-15, 1); if (r.chance(.1)) p(idx) = v[0] - r.logu(1e-15, 1); unsigned want = 0; while (want < (unsigned)n && v[want] < p(idx)) ++want; bool past = want == (unsigned)n; if (past) want = 0;
  c.describe(mon::fmt("closest of %d to %.17g", n, p(idx))); auto g = mt::find_closest_points(A, p, idx); c.check(g.first < (unsigned)n && g.second < (unsigned)n, "closest-index", "indices %u %u of %d samples", g.first, g.second, n); c.check(g.first == want && g.second == (want + 1) % n, "closest", "indices %u %u, expected %u %u", g.first, g.second, want, (want + 1) % n); c.cls(past ? "value past the last sample" : want + 1 == (unsigned)n ? "last sample" : "sample found"); c.note(p(idx)); }
static void signs(mon::Ctx& c) { auto& r = c.rng; double x = r.chance(.2) ? 0.0 : num(r); c.describe(mon::fmt("sign(%.17g)", x)); c.check(mt::sign(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "sign", "sign(%.17g) = %d", x, mt::sign(x)); c.check(mt::sign(-0.0) == 0 && mt::sign((int)std::max(-1e6, std::min(1e6, x))) == ((int)std::max(-1e6, std::min(1e6, x)) > 0) - ((int)std::max(-1e6, std::min(1e6, x)) < 0), "sign", "sign of an integer"); c.note(x); c.cls("sign"); }
static void run(mon::Ctx& c) { switch (c.rng.below(10)) { case 0: lin(c); break; case 1: refuse(c); break; case 2: grid(c); break; case 3: case 4: case 5: polar(c); break; case 6: rnd(c); break; case 7: sorts(c); break; case 8: closest(c); break; default: signs(c); } }
int main(int a, char** v) { return mon::drive(a, v, "C21", run); }
