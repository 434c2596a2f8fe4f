// C09: exist_path against exact containment and closedness.
#include "hull.hpp"
typedef std::shared_ptr<lib::Obstacle> Ob;
// 1 inside, 0 outside, -1 too close to call
struct Item { Ob o; bool agg; std::vector<Spec> S; V ref; int kind = 0; }; // kind: 0 ellipsoid or aggregate, 1 a hull by itself, 2 base obstacle
static int insideOf(const Item& it, V p) {
  if (it.kind == 2) return 0;
  int any = 0; if (!it.kind) for (auto& s : it.S) { R f = fval(foot(s), p.x, p.y); if (std::fabs(f - 1) < 1e-9L) return -1; any |= f < 1; }
  if (any || !it.agg) return any;
  HullOracle h; for (auto& s : it.S) h.F.push_back(foot(s)); h.rx = it.ref.x; h.ry = it.ref.y; h.inner = false; h.minr = 0.5; R rho = std::hypot(p.x - h.rx, p.y - h.ry), lo, hi; h.range(std::atan2(p.y - h.ry, p.x - h.rx), 3.2L * 2 * PI / 499, lo, hi);
  if (rho < lo * (1 - 3e-3L)) return 1; if (rho > hi * (1 + 3e-3L)) return 0; return -1; }
static int closedOf(const Item& it) {
  if (it.kind == 2) return -1; if (!it.agg) return 1; HullOracle h; for (auto& s : it.S) h.F.push_back(foot(s)); h.rx = it.ref.x; h.ry = it.ref.y; h.inner = false; h.minr = 0.5; R lo, hi, gap; h.survey(lo, hi, gap);
  if (gap > 10 * 2 * PI / 499) return 0; if (lo > 0.625L && gap == 0) return 1; return -1; }
static void run(mon::Ctx& c) {
  auto& r = c.rng; int n = r.range(1, 5); if (r.chance(.05)) n = r.range(6, 14); R ox = r.chance(.12) ? (R)r.uni(-200, 200) : 0, oy = ox != 0 ? (R)r.uni(-200, 200) : 0; std::vector<Item> I; std::deque<Ob> list; R z = r.chance(.7) ? 0 : (double)r.uni(-1, 1);
  SpecOpt o; o.planar = true; o.box = 6; o.lmin = .4; o.lmax = 4; o.shiftRef = false; o.moving = true;
  for (int k = 0; k < n; ++k) { Item it; it.agg = r.chance(.5);
    if (!it.agg) { Spec s = randSpec(r, "e" + std::to_string(k), o); s.pos = rd(s.pos + V(ox, oy, 0)); s.ref = s.pos; s.pos.z = z; it.S.push_back(s); it.o = build(s, r); }
    else { int w = r.range(3, 9), gap = r.chance(.45); R rad = r.uni(1.5, 6), cx = r.uni(-4, 4), cy = r.uni(-4, 4), off = r.uni(0, 6.28); if (r.chance(.25)) { w = r.range(2, 5); gap = 0; rad = r.uni(0, 1.5); } std::deque<Ob> m;
      for (int i = 0; i < w - gap; ++i) { R a = off + 2 * PI * i / w; Spec s = randSpec(r, "w" + std::to_string(k) + std::to_string(i), o); s.pos = rd(V(ox + cx + rad * std::cos(a), oy + cy + rad * std::sin(a), z)); s.q = rq(qyaw(a + PI / 2)); s.len = rd(V(std::max((R)0.3L, rad * PI / w * (R)r.uni(1.1, 1.5)), r.uni(.2, .6), 1)); s.ref = s.pos; it.S.push_back(s); m.push_back(build(s, r)); }
      if (r.chance(.15)) { it.kind = 1; it.o = std::make_shared<lib::StarShapeHull>(m, false, 500, .5); } else it.o = std::make_shared<lib::Aggregate>(m); it.ref = vec(it.o->get_reference_position()); bool edge = false; for (auto& s : it.S) edge |= std::fabs(fval(foot(s), it.ref.x, it.ref.y) - 1) < 1e-3L; if (edge) c.skip(); }
    if (r.chance(.06)) { it = Item(); it.kind = 2; it.o = std::make_shared<lib::Obstacle>("base" + std::to_string(k), lib::State(E3((double)ox, (double)oy, (double)z)), r.uni(0, 1)); Spec s = randSpec(r, "x", o); it.S.push_back(s); c.cls("base obstacle in the list"); }
    if (it.kind == 1) c.cls("hull in the list");
    I.push_back(it); list.push_back(it.o); for (auto& s : it.S) c.describe(s.str()); }
  std::vector<int> cl; for (auto& it : I) { int q = closedOf(it); cl.push_back(q); if (q >= 0) { c.check(it.o->is_closed() == (q == 1), "closed", "%s with%s gap reported %s", it.agg ? "aggregate" : "ellipsoid", q ? "out" : "", q ? "open" : "closed"); c.cls(!it.agg ? "ellipsoid" : q ? "closed aggregate" : "open aggregate"); } }
  for (int t = 0; t < 10; ++t) {
    auto pick = [&]() { V p = randV(r, 9); if (r.chance(.08)) p = (R)r.uni(3, 60) * p; p = rd(p + V(ox, oy, 0)); p.z = z; if (r.chance(.5)) { auto& it = I[r.below(n)]; const Foot f = foot(it.S[0]); p.x = (double)((it.agg ? it.ref.x : f.x) + r.gauss() * .8); p.y = (double)((it.agg ? it.ref.y : f.y) + r.gauss() * .8); } return p; };
    auto exact = [&](V p) { p = oddly(r, p, .1); p.z = z; return p; }; V p = exact(pick()), q = exact(pick()); if (r.chance(.1)) q = p; bool near = false; if (r.chance(.15)) { auto& it = I[r.below(n)]; const Spec& s = it.S[r.below(it.S.size())]; const Foot f = foot(s); R th = r.uni(0, 6.28318), u = f.a * std::cos(th), w = f.b * std::sin(th), nx = std::cos(th) / f.a, ny = std::sin(th) / f.b, l = std::hypot(nx, ny), cs = std::cos(f.th), sn = std::sin(f.th), e = r.logu(1e-6, 1e-2); V b(f.x + cs * u - sn * w, f.y + sn * u + cs * w, z), o((cs * nx - sn * ny) / l, (sn * nx + cs * ny) / l, 0); p = rd(b + e * o); q = rd(b + (r.chance(.8) ? -e : 2 * e) * o); if (r.chance(.5)) std::swap(p, q); near = true; } double m = r.uni(0, 1);
    auto speed = [&]() { V w = rd(randV(r, 1)); if (r.chance(.2)) w[r.below(3)] = 0; if (r.chance(.1)) w = V(); return w; };
    lib::Agent ap = buildAgent(r, p, speed(), m, r.chance(.4) ? rq(randQ(r)) : Q{}), aq = buildAgent(r, q, speed(), m, r.chance(.4) ? rq(randQ(r)) : Q{});
    int want = 1; bool amb = false; bool crossOpen = false; int sep = 0;
    for (int k = 0; k < n; ++k) { int x = insideOf(I[k], p), y = insideOf(I[k], q); if (x >= 0 && y >= 0 && x == y) continue; if (x < 0 || y < 0) { if (cl[k] != 0) amb = true; continue; } if (cl[k] < 0) { amb = true; continue; } if (cl[k] == 1) { want = 0; ++sep; } else crossOpen = true; }
    bool got = ap.exist_path(eig(q), list);
    if (want == 0 || !amb) { c.check(got == (want == 1), "path", "agent %s target %s: path %s but %s", vs(p).c_str(), vs(q).c_str(), got ? "reported" : "denied", want ? "nothing closed separates them" : "a closed obstacle separates them"); c.cls(want ? (crossOpen ? "path out of an open obstacle" : "path") : "no path"); if (near) c.cls(want ? "close together" : "close to each other on both sides of an outline"); if (sep > 1) c.cls("several obstacles separate"); }
    c.check(aq.exist_path(eig(p), list) == got, "symmetric", "path from agent to target %d, back %d", got, !got);
    auto sh = list; std::vector<Ob> v(sh.begin(), sh.end()); r.shuffle(v); c.check(ap.exist_path(eig(q), std::deque<Ob>(v.begin(), v.end())) == got, "order", "the answer depends on the order of the obstacles");
    std::deque<Ob> less(v.begin(), v.begin() + r.below(n + 1)); if (got) c.check(ap.exist_path(eig(q), less), "monotone", "removing obstacles removed the path");
    bool each = true; for (auto& ob : list) each &= ap.exist_path(eig(q), std::deque<Ob>{ob}); c.check(each == got, "conjunction", "the answer for the list is not that for its elements");
    c.check(ap.exist_path(eig(q), std::deque<Ob>()), "empty", "no path without obstacles");
    c.note((double)p.x); c.note((double)q.y); }
}
int main(int a, char** v) { dressUp() = 1; return mon::drive(a, v, "C09", run); }
