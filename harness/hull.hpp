// Exact radius of a star-shaped hull in a direction, from the primitives' footprints.
#pragma once
#include "planar.hpp"
struct HullOracle {
  std::vector<Foot> F; R rx, ry; bool inner; R minr;
  // crossings of the forward ray with primitive k; returns count
  int hits(int k, R th, R* t) const { const Foot& f = F[k]; R u0, v0, u1, v1; inFrame(f, rx, ry, u0, v0); inFrame(f, rx + std::cos(th), ry + std::sin(th), u1, v1);
    R du = u1 - u0, dv = v1 - v0, A = du * du + dv * dv, B = u0 * du + v0 * dv, C = u0 * u0 + v0 * v0 - 1, D = B * B - A * C; if (D < 0) return 0; D = std::sqrt(D);
    int n = 0; R a = (-B - D) / A, b = (-B + D) / A; if (a > 0) t[n++] = a; if (b > 0) t[n++] = b; return n; }
  // raw: which crossing decides (primitive and branch), -1 if none
  R raw(R th, int* who = nullptr) const { R best = inner ? 1e30L : -1; int w = -1; for (int k = 0; k < (int)F.size(); ++k) { R t[2]; int n = hits(k, th, t); for (int i = 0; i < n; ++i) if (inner ? t[i] < best : t[i] > best) { best = t[i]; w = 4 * k + 2 * (n == 2) + i; } }
    if (w < 0) best = minr; if (who) *who = w; return best; }
  R radius(R th, int* who = nullptr) const { R r = raw(th, who); if (r < minr) { if (who) *who = -2; return minr; } return r; }
  // the two directions along which primitive k is just touched, none from inside it
  int tangents(int k, R* t) const { const Foot& f = F[k]; R u, v; inFrame(f, rx, ry, u, v); R D = std::hypot(u, v); if (D <= 1) return 0; R c = std::atan2(-v, -u), h = std::asin(1 / D);
    for (int i = 0; i < 2; ++i) { R g = c + (i ? h : -h); t[i] = std::atan2(f.b * std::sin(g), f.a * std::cos(g)) + f.th; } return 2; }
  // smallest and largest radius over a window, refined where a primitive comes in or goes out of sight
  void range(R th, R w, R& lo, R& hi, bool* smooth = nullptr, R* nlo = nullptr, R* nhi = nullptr) const {
    const int N = 64; lo = 1e30L; hi = -1; int who0 = -9, who; bool sm = true; std::vector<int> prev(F.size(), -1); R pr = 0, pt = 0;
    if (nlo) { *nlo = 1e30L; *nhi = -1e30L; }
    R ur = 0, pur = 0, ppur = 0; int uwho, puwho = 0; // before the smallest radius applies
    for (int i = 0; i <= N; ++i) { R a = th - w + 2 * w * i / N; ur = raw(a, &uwho); R r = std::max(ur, minr); who = ur < minr ? -2 : uwho; lo = std::min(lo, r); hi = std::max(hi, r);
      if (i && uwho != puwho) { R x = pt, y = a; for (int q = 0; q < 50; ++q) { R m = (x + y) / 2; int w_; raw(m, &w_); if (w_ == puwho) x = m; else y = m; } R r1 = radius(x), r2 = radius(y); lo = std::min(lo, std::min(r1, r2)); hi = std::max(hi, std::max(r1, r2)); } // where another primitive takes over
      if (i > 1 && (pur - ppur) * (pur - ur) > 0) { R s = pur > ur ? 1 : -1, x = a - 4 * w / N, y = a; for (int q = 0; q < 40; ++q) { R m1 = x + (y - x) / 3, m2 = y - (y - x) / 3; if (s * raw(m1) < s * raw(m2)) x = m1; else y = m2; } R r1 = radius((x + y) / 2); lo = std::min(lo, r1); hi = std::max(hi, r1); } // an extremum between the samples
      ppur = pur; pur = ur; puwho = uwho;
      if (i == 0) who0 = who; else { if (who != who0) sm = false;
        if (nlo) { // direction of the chord relative to the direction of the ray
          R dx = r * std::cos(a) - pr * std::cos(pt), dy = r * std::sin(a) - pr * std::sin(pt); R ang = std::remainder(std::atan2(dy, dx) - th - PI / 2, PI); *nlo = std::min(*nlo, ang); *nhi = std::max(*nhi, ang); } }
      for (int k = 0; k < (int)F.size(); ++k) { R t[2]; int n = hits(k, a, t); if (i && n != prev[k]) { R x = a - 2 * w / N, y = a; for (int q = 0; q < 50; ++q) { R m = (x + y) / 2; if (hits(k, m, t) == prev[k]) x = m; else y = m; } R r1 = radius(x), r2 = radius(y); lo = std::min(lo, std::min(r1, r2)); hi = std::max(hi, std::max(r1, r2)); } prev[k] = n; }
      pr = r; pt = a; }
    // and just beside the directions where a primitive comes in or goes out of sight, however narrow it is
    for (int k = 0; k < (int)F.size(); ++k) { R t[2]; int n = tangents(k, t); if (!n) continue; R wide = std::remainder(t[1] - t[0], 2 * PI); for (int i = 0; i < 2; ++i) for (int q = 0; q < 6; ++q) { R e = q == 5 ? .5L : std::pow((R)10, -3 * q - 3); R d = std::remainder((i ? t[1] - e * wide : t[0] + e * wide) - th, 2 * PI); if (std::fabs(d) <= w) { int o; R r = radius(th + d, &o); lo = std::min(lo, r); hi = std::max(hi, r); } } }
    if (who0 < 0) sm = false; if (smooth) *smooth = sm; }
  // smallest and largest radius over all directions, with the directions where a primitive comes in or goes out of sight; longest gap (no primitive) in radians
  void survey(R& lo, R& hi, R& gap) const {
    const int N = 1440; lo = 1e30L; hi = 0; int dead = 0, best = 0, who; R t[2]; std::vector<int> prev(F.size(), -1);
    for (int i = 0; i <= 2 * N; ++i) { R y = 2 * PI * i / N, r = radius(y, &who); lo = std::min(lo, r); hi = std::max(hi, r); if (who == -1) best = std::max(best, ++dead); else dead = 0; if (i > N) continue;
      for (int k = 0; k < (int)F.size(); ++k) { int n = hits(k, y, t); if (i && n != prev[k]) { R a = 2 * PI * (i - 1) / N, b = y; for (int q = 0; q < 50; ++q) { R m = (a + b) / 2; if (hits(k, m, t) == prev[k]) a = m; else b = m; } R r1 = radius(a), r2 = radius(b); lo = std::min(lo, std::min(r1, r2)); hi = std::max(hi, std::max(r1, r2)); } prev[k] = n; } }
    gap = best * 2 * PI / N; }
};
