// Exact plan-view relations between ellipse footprints (margins included), independent of the library.
#pragma once
#include "scene.hpp"
struct Foot { R x, y, a, b, th; };  // centre, half-axes, yaw
inline Foot foot(const Spec& s) { return Foot{s.pos.x, s.pos.y, s.len.x + s.margin.x, s.len.y + s.margin.y, 2 * std::atan2(s.q.z, s.q.w)}; }
inline void inFrame(const Foot& A, R px, R py, R& u, R& v) { R dx = px - A.x, dy = py - A.y, c = std::cos(A.th), s = std::sin(A.th); u = (c * dx + s * dy) / A.a; v = (-s * dx + c * dy) / A.b; }
inline R fval(const Foot& A, R px, R py) { R u, v; inFrame(A, px, py, u, v); return u * u + v * v; }
inline void onContour(const Foot& B, R t, R& px, R& py) { R c = std::cos(B.th), s = std::sin(B.th), u = B.a * std::cos(t), v = B.b * std::sin(t); px = B.x + c * u - s * v; py = B.y + s * u + c * v; }
struct Rel { bool overlap; bool centre; R margin; R arcBinA, arcAinB; };  // margin: how far from the decision boundary (relative), arcs: longest contiguous inside stretch in radians of the parameter
inline R longestArc(const Foot& A, const Foot& B, R& fmin) {  // longest stretch of B's contour inside A
  const int N = 1800; static std::vector<char> in(N); fmin = 1e30L; int best = 0; R tb = 0;
  // in A's unit frame the contour is centre + p cos t + q sin t
  R cx, cy, px, py, qx, qy, bx, by;
  inFrame(A, B.x, B.y, cx, cy); onContour(B, 0, bx, by); inFrame(A, bx, by, px, py); onContour(B, PI / 2, bx, by); inFrame(A, bx, by, qx, qy);
  px -= cx; py -= cy; qx -= cx; qy -= cy;
  static std::vector<double> ct, st; if (ct.empty()) for (int i = 0; i < N; ++i) { ct.push_back(std::cos(2 * M_PI * i / N)); st.push_back(std::sin(2 * M_PI * i / N)); }
  double Px = px, Py = py, Qx = qx, Qy = qy, Cx = cx, Cy = cy;
  for (int i = 0; i < N; ++i) { double u = Cx + Px * ct[i] + Qx * st[i], v = Cy + Py * ct[i] + Qy * st[i], f = u * u + v * v; in[i] = f <= 1; if (f < fmin) { fmin = f; tb = 2 * PI * i / N; } }
  R h = 2 * PI / N; // refine the minimum
  auto F = [&](R t) { R u = cx + px * std::cos(t) + qx * std::sin(t), v = cy + py * std::cos(t) + qy * std::sin(t); return u * u + v * v; };
  R lo = tb - h, hi = tb + h; for (int i = 0; i < 60; ++i) { R m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3; if (F(m1) < F(m2)) hi = m2; else lo = m1; }
  fmin = std::min(fmin, F((lo + hi) / 2));
  int run = 0, total = 0; for (int i = 0; i < N; ++i) total += in[i];
  if (total == N) return 2 * PI;
  for (int i = 0; i < 2 * N; ++i) { if (in[i % N]) { ++run; best = std::max(best, run); } else run = 0; }
  return std::max(0, best - 1) * h; }
inline Rel relate(const Foot& A, const Foot& B) {
  Rel r; R f1, f2; r.arcBinA = longestArc(A, B, f1); r.arcAinB = longestArc(B, A, f2);
  R ca = fval(A, B.x, B.y), cb = fval(B, A.x, A.y);
  r.centre = ca <= 1 || cb <= 1;
  r.overlap = r.centre || f1 <= 1 || f2 <= 1;
  r.margin = std::min(std::min(std::fabs(f1 - 1), std::fabs(f2 - 1)), std::min(std::fabs(ca - 1), std::fabs(cb - 1)));
  if (r.overlap && std::fabs(f1 - 1) > 1e-6L && std::fabs(f2 - 1) > 1e-6L && !r.centre) r.margin = std::max(r.margin, (R)1e-5L);
  return r; }
// 1 must be reported as intersecting, 0 must not, -1 either answer is allowed (below the contour resolution)
inline int mustIntersect(const Foot& A, const Foot& B) {
  if (std::hypot(A.x - B.x, A.y - B.y) > 1.001L * (std::max(A.a, A.b) + std::max(B.a, B.b)) + 1e-3L) return 0;
  Rel r = relate(A, B);
  if (!r.overlap) return r.margin > 1e-7L ? 0 : -1;
  R ca = fval(A, B.x, B.y), cb = fval(B, A.x, A.y);
  if (ca < 1 - 1e-7L || cb < 1 - 1e-7L) return 1;
  if (r.arcBinA > 2 * PI / 90 || r.arcAinB > 2 * PI / 90) return 1;
  return -1; }
