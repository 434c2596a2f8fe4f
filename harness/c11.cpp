// C11: eigenstructure of the modulation matrix, in world coordinates.
#include "hull.hpp"
static V mulM(const Eigen::Matrix3d& M, V v) { V o; for (int i = 0; i < 3; ++i) o[i] = (R)M(i, 0) * v.x + (R)M(i, 1) * v.y + (R)M(i, 2) * v.z; return o; }
static V col(const Eigen::Matrix3d& M, int j) { return V(M(0, j), M(1, j), M(2, j)); }
static void tangents(V n, V& a, V& b) { V u = std::fabs(n.x) < .6L ? V(1, 0, 0) : V(0, 1, 0); a = unit(cross(n, u)); b = cross(n, a); }
static void basis(mon::Ctx& c, const Eigen::Matrix3d& B, V n, const char* who, R tol) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j) c.near((double)dot(col(B, i), col(B, j)), i == j, 1e-9, "orthonormal", mon::fmt("%s: basis columns %d and %d", who, i, j).c_str());
  c.check(norm(col(B, 0) - n) < tol, "first-vector", "%s: first basis vector %s is not the normal %s", who, vs(col(B, 0)).c_str(), vs(n).c_str()); }
static void eigen(mon::Ctx& c, const Eigen::Matrix3d& M, V r, V n, R d, R tol, const char* who) {
  R k = d <= 1 ? 1 : 1 / d, lr = 1 - k, lt = 1 + k; V a, b; tangents(n, a, b);
  V e = mulM(M, r) - lr * r; c.check(norm(e) < tol, "reference-direction", "%s: the reference direction is scaled to %s instead of by %.9Lg (distance %.9Lg, error %.3Lg)", who, vs(mulM(M, r)).c_str(), lr, d, norm(e));
  for (V t : {a, b, unit(a + (R)0.37L * b)}) { V x = mulM(M, t) - lt * t; c.check(norm(x) < tol, "tangent-direction", "%s: tangent %s becomes %s instead of being scaled by %.9Lg (error %.3Lg)", who, vs(t).c_str(), vs(mulM(M, t)).c_str(), lt, norm(x)); } }
static void ell(mon::Ctx& c) {
  auto& r = c.rng; SpecOpt o; o.planar = r.chance(.3); o.flat = !o.planar; o.moving = true; Spec s = randSpec(r, "e", o); if (s.len.x <= 1e-4L || s.len.y <= 1e-4L || s.len.z <= 1e-4L) s.ref = s.pos;
  double m = r.chance(.5) ? 0 : r.uni(0, 1); auto e = build(s, r);
  std::vector<V> seen; bool again = r.chance(.3);
  for (int i = 0; i < (again ? 6 : 4); ++i) { if (again && (i == 2 || i == 4)) { c.describe(" then " + tweak(s, *e, r, o.planar) + " " + s.str()); c.cls("asked again after one attribute changed"); }
    V k = s.L(V(m, m, m)), dir = randDir(r); if (r.chance(.25)) { dir = V(); dir[r.below(3)] = r.sgn(); } else if (r.chance(.2)) dir[r.below(3)] = 0; if (o.planar && r.chance(.8)) { dir.z = 0; if (norm(dir) < .1L) dir = V(1, 0, 0); }
    R lev = r.chance(.15) ? 1 : r.chance(.25) ? (R)r.uni(.05, 1) : (R)r.logu(1.0001, 1e3);
    V p = rd(pointAtLevel(s, V(dir.x * k.x, dir.y * k.y, dir.z * k.z), lev, V(m, m, m)));
    if (again && i >= 2 && r.chance(.7)) p = seen[r.below(seen.size())]; seen.push_back(p);
    R g = s.level(p, m); V grad = s.grad(p, m); if (norm(grad) < 1e-7L || norm(p - s.ref) < 1e-3L) continue; V n = unit(grad), rr = unit(p - s.ref); R cosn = std::fabs(dot(n, rr)); if (cosn < .05L) continue;
    if (i == 0) c.describe(s.str() + mon::fmt(" margin %g agent ", m) + vs(p));
    // conditioning of the normal as in C02
    V l = s.local(p); R rel = 0; for (int j = 0; j < 3; ++j) { R dx = 2e-15L * (1 + norm(p) + norm(s.pos)); rel += 2 * s.curv[j] * (2 * s.curv[j] - 1) / (k[j] * k[j]) * std::pow((std::fabs(l[j]) + dx) / k[j], 2 * s.curv[j] - 2) * dx / norm(grad); } if (rel > 1e-8L) continue;
    lib::Agent a = buildAgent(r, p, r.chance(.15) ? V() : oddly(r, rd(randV(r, 2))), m, rq(randQ(r)));
    auto res = lib::Modulation::compute_modulation_matrix(a, *e); R tol = (1e-9L + 50 * rel) / cosn; bool amb = std::fabs(g - 1) < 1e-9L;
    c.near(std::get<2>(res), (double)g, (double)(1e-9L * (1 + g) + norm(grad) * 1e-13L * (1 + norm(p))), "distance", "distance returned with the matrix");
    eigen(c, std::get<0>(res), rr, n, amb ? 1 : g, tol + (amb ? 1e-8L : 0) + 1e-12L, "ellipsoid");
    V nl = qinv(s.q, n); basis(c, std::get<1>(res), nl, "ellipsoid", 1e-9L + 50 * rel);
    // the two bases directly
    auto bm = lib::Modulation::compute_basis_matrices(eig(nl), a, *e); V rl = qinv(s.q, rr);
    c.check(norm(col(bm.first, 0) - rl) < 1e-9L, "reference-basis", "first column of the reference basis %s is not the reference direction %s", vs(col(bm.first, 0)).c_str(), vs(rl).c_str());
    for (int j = 1; j < 3; ++j) c.check(std::fabs(dot(col(bm.first, j), nl)) < 1e-9L, "reference-basis", "column %d of the reference basis is not tangent (%.3Lg)", j, dot(col(bm.first, j), nl));
    basis(c, bm.second, nl, "basis", 1e-12L * 10);
    c.cls(g <= 1 ? "inside or on" : "outside"); if (!o.planar && std::fabs(n.z) > .1L && std::fabs(n.z) < .9L) c.cls("slanted normal"); if (norm(s.ref - s.pos) > .05L) c.cls("shifted reference point"); if (std::fabs(nl.z) > .999L) c.cls("vertical normal"); c.note((double)g); c.note((double)p.x); }
}
static void agg(mon::Ctx& c) {
  auto& r = c.rng; std::vector<Spec> S; std::deque<std::shared_ptr<lib::Obstacle>> O; int n = r.range(2, 5); SpecOpt o; o.planar = true; o.box = r.uni(.5, 4);
  for (int i = 0; i < n; ++i) { S.push_back(randSpec(r, "m" + std::to_string(i), o)); O.push_back(build(S.back(), r)); c.describe(S.back().str()); }
  auto A = std::make_shared<lib::Aggregate>(O); V ref = vec(A->get_reference_position());
  for (int i = 0; i < 5; ++i) { V p = rd(randV(r, 6)); p.z = 0; double m = r.uni(0, .5); lib::Agent a = buildAgent(r, p, rd(randV(r, 1)), m); R rho = norm(p - ref); if (rho < .05L) continue;
    double d = A->compute_distance_to_agent(a); V nn = vec(A->compute_normal_to_agent(a)); V rr = (1 / rho) * (p - ref); if (norm(nn) < 1e-9L) continue; nn = unit(nn); R cosn = std::fabs(dot(nn, rr)); if (cosn < .05L || std::fabs(d - 1) < 1e-9) continue;
    auto res = lib::Modulation::compute_modulation_matrix(a, *A); c.near(std::get<2>(res), d, 1e-12 * (1 + d), "distance", "aggregate distance returned with the matrix");
    eigen(c, std::get<0>(res), rr, nn, d, 1e-9L / cosn, "aggregate"); c.cls(A->point_is_inside(eig(p)) ? "aggregate from inside" : "aggregate from outside"); c.note(d); }
}
static void values(mon::Ctx& c) {
  auto& r = c.rng; double rf = r.chance(.4) ? 1 : r.chance(.3) ? r.logu(1e-3, 1e3) : r.uni(.3, 5), prev = -1; std::vector<double> ds; for (int i = 0; i < 12; ++i) ds.push_back(r.chance(.12) ? r.range(0, 4) * .5 : r.chance(.3) ? r.uni(0, 1) : r.chance(.1) ? 1 : r.chance(.2) ? 1 + r.logu(1e-12, 1e-3) : r.logu(1, 1e6)); std::sort(ds.begin(), ds.end()); c.describe(mon::fmt("reactivity %g", rf));
  for (double d : ds) { auto D = lib::Modulation::compute_diagonal_eigenvalues(d, rf); R k = d <= 1 ? 1 : std::pow((R)d, -1 / (R)rf); c.near(D.diagonal()(0), (double)(1 - k), 1e-13 * 10, "eigenvalue", mon::fmt("reference eigenvalue at %.17g", d).c_str()); for (int i = 1; i < 3; ++i) c.near(D.diagonal()(i), (double)(1 + k), 1e-12, "eigenvalue", mon::fmt("tangent eigenvalue at %.17g", d).c_str());
    c.check(D.diagonal()(0) >= prev - 1e-15, "monotone", "the reference eigenvalue decreases with the distance"); prev = D.diagonal()(0);
    if (rf == 1) { auto E = lib::Modulation::compute_diagonal_eigenvalues(d); c.near(E.diagonal()(0), D.diagonal()(0), 0, "default", "default reactivity is not one"); } c.note(d); } c.cls("eigenvalues");
}
static void run(mon::Ctx& c) { int k = c.rng.below(20); if (k == 0) agg(c); else if (k < 3) values(c); else ell(c); }
int main(int a, char** v) { dressUp() = 2; return mon::drive(a, v, "C11", run); }
