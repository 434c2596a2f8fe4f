// C10: weights against the formula in extended precision.
#include "scene.hpp"
static void run(mon::Ctx& c) {
  auto& r = c.rng; int n = r.chance(.02) ? r.range(20, r.chance(.2) ? 700 : 150) : r.range(1, 20); double crit = r.chance(.4) ? 1 : r.uni(0, 5), pw = r.chance(.4) ? 2 : r.uni(.2, 6); if (r.chance(.15)) crit = r.chance(.4) ? 0 : r.logu(1e-4, 1e3); if (r.chance(.15)) { int k = r.below(4); pw = k == 0 ? 0 : k == 1 ? r.range(1, 12) : k == 2 ? .5 : r.uni(6, 14); }
  if (r.chance(.005)) { c.check(lib::Modulation::weight_obstacles(Eigen::ArrayXd(0), crit, pw).size() == 0, "size", "weights for no distances"); c.cls("no obstacle"); }
  bool extreme = r.chance(.05); Eigen::ArrayXd d(n);
  int mode = r.below(5);
  for (int i = 0; i < n; ++i) { d(i) = crit + (r.chance(.3) ? r.logu(1e-6, 1e3) : r.uni(.01, 10)); if (mode == 0 && r.chance(.4)) d(i) = r.chance(.3) ? crit : r.uni(0, crit); if (extreme && r.chance(.4)) d(i) = r.chance(.3) ? std::nextafter(crit, 1e9) : crit + r.logu(1e-150, 1e250); if (r.chance(.2) && i) d(i) = d(i - 1); }
  if (extreme) c.cls("extreme distances");
  if (mode == 4) for (int i = 0; i < n; ++i) if (d(i) > crit && r.chance(.97)) d(i) = r.uni(0, crit);
  if (mode == 1) d(r.below(n)) = crit; if (mode == 2) d(r.below(n)) = std::nextafter(crit, 1e9); if (mode == 3) for (int i = 0; i < n; ++i) if (d(i) <= crit) d(i) = crit + 1;
  std::string in = mon::fmt("critical %.17g power %.17g distances", crit, pw); for (int i = 0; i < n; ++i) in += mon::fmt(" %.17g", d(i)); c.describe(in);
  Eigen::ArrayXd w = lib::Modulation::weight_obstacles(d, crit, pw);
  c.check(w.size() == n, "size", "%d weights for %d distances", (int)w.size(), n);
  int k = 0; for (int i = 0; i < n; ++i) k += d(i) <= crit; R sum = 0, tot = 0; std::vector<R> want(n);
  for (int i = 0; i < n; ++i) { want[i] = k ? (d(i) <= crit ? (R)1 / k : 0) : std::pow((R)(d(i) - crit), -(R)pw); tot += want[i]; }
  for (int i = 0; i < n; ++i) { R x = want[i] / tot; c.check(w(i) >= 0, "negative", "weight %d is %.9g", i, w(i)); c.near(w(i), (double)x, 1e-11, "weight", mon::fmt("weight %d", i).c_str()); sum += w(i); }
  c.near((double)sum, 1, 1e-12 * n, "sum", "sum of the weights");
  if (k) for (int i = 0; i < n; ++i) c.check((w(i) > 0) == (d(i) <= crit), "critical", "distance %.17g (critical %.17g) weighs %.9g", d(i), crit, w(i));
  for (int i = 0; i < n; ++i) for (int j = n > 150 ? std::max(0, i - 40) : 0; j < n && j < i + 200; ++j) { if (d(i) < d(j)) c.check(w(i) >= w(j), "monotone", "distance %.17g weighs %.17g, %.17g weighs %.17g", d(i), w(i), d(j), w(j)); if (d(i) == d(j)) c.check(w(i) == w(j), "equal", "equal distances weigh differently"); }
  std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); Eigen::ArrayXd e(n); for (int i = 0; i < n; ++i) e(i) = d(p[i]);
  Eigen::ArrayXd w2 = lib::Modulation::weight_obstacles(e, crit, pw); for (int i = 0; i < n; ++i) c.near(w2(i), w(p[i]), 1e-13, "reorder", "weight after reordering");
  c.cls(k == 0 ? "none critical" : k == n ? "all critical" : "some critical"); if (n == 1) c.cls("one obstacle"); for (int i = 0; i < n; ++i) if (d(i) == crit) { c.cls("exactly critical"); break; }
  for (int i = 0; i < n; ++i) c.note(d(i));
}
int main(int a, char** v) { return mon::drive(a, v, "C10", run); }
