// C22: what the plotting backend is told to draw, against the geometry.
#include <Python.h>
#include "hull.hpp"
#include "DynamicObstacleAvoidance/Utils/Plotting/PlottingTools.hpp"
#include <sstream>
namespace pt = lib::PlottingTools;
struct Call { std::string name; std::vector<std::vector<double>> v; std::vector<std::string> s; };
static std::string unhex(const std::string& h) { std::string o; for (size_t i = 0; i + 1 < h.size() && h[i] != '.'; i += 2) o += (char)std::stoi(h.substr(i, 2), 0, 16); return o; }
static std::vector<Call> take() {
  plt::detail::_interpreter::get(); PyObject* m = PyImport_ImportModule("matplotlib.pyplot"); if (!m) throw std::runtime_error("no backend"); PyObject* r = PyObject_CallMethod(m, "take", 0); if (!r) throw std::runtime_error("no record from the backend (is it the real one?)");
  std::string t = PyUnicode_AsUTF8(r); Py_DECREF(r); Py_DECREF(m); std::vector<Call> out; std::istringstream ls(t); std::string l;
  while (std::getline(ls, l)) { std::istringstream is(l); Call c; int n; is >> c.name >> n; for (int i = 0; i < n; ++i) { std::string k, w; is >> k; if (k == "s") { is >> w; c.s.push_back(unhex(w)); } else if (k == "v") { int z; is >> z; std::vector<double> v(z); for (auto& x : v) { is >> w; x = strtod(w.c_str(), 0); } c.v.push_back(v); } else { is >> w; c.v.push_back({strtod(w.c_str(), 0)}); } } out.push_back(c); }
  return out; }
typedef std::vector<Call> Rec;
static bool isPlot(const Call& c) { return c.name == "plot" && c.v.size() == 2 && c.s.size() <= 1; }
static char style(const Call& c) { std::string f = c.s.empty() ? "" : c.s[0]; if (f.find("--") != std::string::npos) return '='; for (char ch : f) if (ch == 'o' || ch == 'x' || ch == '-') return ch; return '?'; }
static char colour(const Call& c) { return c.s.empty() || c.s[0].empty() ? 0 : c.s[0][0]; }
static R px(V p, bool) { return p.x; }
static R py(V p, bool xz) { return xz ? p.z : p.y; }
static R size(const Spec& s) { return 1 + norm(s.pos) + norm(s.ref) + norm(s.len) + norm(s.margin); }
// largest deviation of the drawn curve from the projected section with half-axes of the given inflation; also closed and going once round
static bool curveIs(const Call& c, const Spec& s, V extra, bool xz, std::string& why) {
  auto &X = c.v[0], &Y = c.v[1]; if (X.size() != Y.size() || X.size() < 20) { why = "too few points"; return false; }
  V k = s.len + extra; V A = qrot(s.q, V(k.x, 0, 0)), B = qrot(s.q, xz ? V(0, 0, k.z) : V(0, k.y, 0)); R ax = px(A, xz), ay = py(A, xz), bx = px(B, xz), by = py(B, xz), det = ax * by - ay * bx, sc = size(s);
  if (std::fabs(X.front() - X.back()) > 1e-9L * sc || std::fabs(Y.front() - Y.back()) > 1e-9L * sc) { why = "curve not closed"; return false; }
  R turn = 0, pu = 0, pv = 0, maxstep = 0;
  for (size_t i = 0; i < X.size(); ++i) { R dx = X[i] - px(s.pos, xz), dy = Y[i] - py(s.pos, xz), u = (dx * by - dy * bx) / det, v = (ax * dy - ay * dx) / det; R f = std::sqrt(u * u + v * v), tol = 1e-12L * sc * (std::fabs(ax) + std::fabs(ay) + std::fabs(bx) + std::fabs(by)) / std::fabs(det) + 1e-10L;
    if (!(std::fabs(f - 1) <= tol)) { why = mon::fmt("point %d (%.9g, %.9g) off the section: %.9Lg instead of 1", (int)i, X[i], Y[i], f); return false; }
    if (i) { R st = std::atan2(pu * v - pv * u, pu * u + pv * v); turn += st; maxstep = std::max(maxstep, std::fabs(st)); } pu = u; pv = v; }
  if (std::fabs(std::fabs(turn) - 2 * PI) > 1e-6L || maxstep > .5L) { why = mon::fmt("curve goes round by %.4Lf rad, longest step %.3Lf", turn, maxstep); return false; }
  return true; }
static bool nearIs(const Call& c, V p, bool xz) { return c.v[0].size() == 1 && c.v[1].size() == 1 && std::fabs(c.v[0][0] - px(p, xz)) + std::fabs(c.v[1][0] - py(p, xz)) < 1e-10L * (1 + norm(p)); }
static bool pointIs(const Call& c, V p, bool xz) { return c.v[0].size() == 1 && c.v[1].size() == 1 && c.v[0][0] == (double)px(p, xz) && c.v[1][0] == (double)py(p, xz); }
static bool drawable(const Spec& s, bool xz) { for (int m = 0; m < 2; ++m) { V k = s.len + (m ? s.margin : V()); V A = qrot(s.q, V(k.x, 0, 0)), B = qrot(s.q, xz ? V(0, 0, k.z) : V(0, k.y, 0)); R det = px(A, xz) * py(B, xz) - py(A, xz) * px(B, xz); if (std::fabs(det) < 1e-3L * norm(A) * norm(B)) return false; } return true; }
// consumes from rec the calls that draw this ellipsoid; each must be found
static char drawsEllipsoid(mon::Ctx& c, Rec& rec, const Spec& s, bool xz, char col, const char* ctx) {
  std::string why = "no such curve", w; int a = -1, b = -1, ref = -1, lab = -1; R scale = 0;
  for (size_t i = 0; i < rec.size(); ++i) { auto& k = rec[i]; if (isPlot(k) && (col == 0 || colour(k) == col)) {
      if (k.v[0].size() > 1) { if (a < 0 && style(k) == '-' && curveIs(k, s, V(), xz, w)) a = i; else { if (a < 0 && style(k) == '-') why = w; if (b < 0 && style(k) == '=' && curveIs(k, s, s.margin, xz, w)) b = i; else if (b < 0 && style(k) == '=') why = w; } }
      else if (style(k) == 'x') { if (ref < 0 && pointIs(k, s.ref, xz)) ref = i; }
      else if (style(k) == 'o') { if (lab < 0 && s.name.empty() && pointIs(k, s.pos, xz)) lab = i; } }
    else if (k.name == "text" && lab < 0 && !s.name.empty() && k.v.size() == 2 && k.s.size() == 1 && k.s[0] == s.name && pointIs(k, s.pos, xz)) lab = i; }
  c.check(a >= 0, "contour", "%s: contour of %s in %s not drawn: %s", ctx, s.str().c_str(), xz ? "xz" : "xy", why.c_str());
  c.check(b >= 0, "safety-contour", "%s: contour with margin of %s in %s not drawn: %s", ctx, s.str().c_str(), xz ? "xz" : "xy", why.c_str());
  c.check(ref >= 0, "reference-point", "%s: reference point of %s not drawn", ctx, s.str().c_str());
  c.check(lab >= 0, "label", "%s: name or centre of %s not drawn", ctx, s.str().c_str());
  char got = colour(rec[a]); c.check(colour(rec[b]) == got && colour(rec[ref]) == got && (rec[lab].name == "text" || colour(rec[lab]) == got), "one-colour", "%s: the parts of %s are drawn in several colours", ctx, s.str().c_str());
  std::set<int> used{a, b, ref, lab}; Rec rest; for (size_t i = 0; i < rec.size(); ++i) if (!used.count(i)) rest.push_back(rec[i]); rec.swap(rest); (void)scale; return got; }
static Spec spec(mon::Rng& r, const std::string& n, bool anyPose) { SpecOpt o; o.planar = !anyPose; o.curved = false; Spec s = randSpec(r, n, o); if (!anyPose) { s.pos.z = s.ref.z = (double)r.uni(-3, 3); if (r.chance(.3)) { s.q = rq(qaxis(V(0, 1, 0), r.uni(-3, 3))); } } return s; }
static void ellipsoid(mon::Ctx& c) {
  auto& r = c.rng; bool any = r.chance(.4); Spec s = spec(r, r.chance(.3) ? "" : mon::fmt("thing%d", r.below(99)), any); bool xz = r.chance(.5); if (!drawable(s, xz)) c.skip(); c.describe(s.str()); auto e = build(s, r); char col = "bgrcmyk"[r.below(7)]; take();
  std::shared_ptr<lib::Obstacle> base = e; base->draw(std::string(1, col), xz ? "xz" : "xy"); Rec rec = take(); drawsEllipsoid(c, rec, s, xz, col, "draw"); c.check(rec.empty(), "extra", "%d further drawing calls, first %s", (int)rec.size(), rec.empty() ? "" : rec[0].name.c_str());
  c.cls(xz ? "ellipsoid in xz" : "ellipsoid in xy"); c.cls(s.name.empty() ? "unnamed" : "named"); if (norm(s.margin) > 0) c.cls("with margin"); if (any) c.cls("pose in space"); c.note((double)s.pos.x); c.note((double)s.len.x); }
static HullOracle oracleOf(const std::vector<Spec>& S, V ref, bool inner, R minr) { HullOracle h; for (auto& w : S) h.F.push_back(foot(w)); h.rx = ref.x; h.ry = ref.y; h.inner = inner; h.minr = minr; return h; }
// the drawn curve follows the surface of the hull all the way round; in xz it is seen edge-on at the hull's height, as far as the hull goes
static bool onHull(const Call& k, bool xz, const HullOracle& h, V ref, R step, std::string& why) {
  size_t n = k.v[0].size(); if (n != k.v[1].size() || n < 10) { why = mon::fmt("%d points", (int)n); return false; } R turn = 0, lx = 0, ly = 0, ghi = 0, glo = 1e30L, xl = 1e30L, xh = -1e30L;
  for (int i = 0; i < 360; ++i) { R v = h.radius(PI * i / 180); ghi = std::max(ghi, v); glo = std::min(glo, v); R x = ref.x + v * std::cos(PI * i / 180); xl = std::min(xl, x); xh = std::max(xh, x); } R slack = (ghi - glo) * 2e-4L + 1e-6L * ghi + 1e-9L * (1 + norm(ref)), a = 1e30L, b = -1e30L;
  for (size_t i = 0; i < n; ++i) { R x = k.v[0][i], y = k.v[1][i], dx = x - ref.x, dy = y - ref.y; a = std::min(a, x); b = std::max(b, x);
    if (xz) { if (std::fabs(y - ref.z) > 1e-9L * (1 + norm(ref))) { why = mon::fmt("point %d at height %.9Lg, the hull is at %.9Lg", (int)i, y, ref.z); return false; } continue; }
    R lo, hi; h.range(std::atan2(dy, dx), 3.2L * step, lo, hi); R rho = std::hypot(dx, dy); if (!(rho >= lo - slack && rho <= hi + slack)) { why = mon::fmt("point %d (%.9Lg, %.9Lg) at %.9Lg from the reference point, the surface is between %.9Lg and %.9Lg", (int)i, x, y, rho, lo, hi); return false; }
    if (i) turn += std::atan2(lx * dy - ly * dx, lx * dx + ly * dy); lx = dx; ly = dy; }
  if (xz && (std::fabs(a - xl) > (ghi - 0) * 8 * step + .02L * ghi || std::fabs(b - xh) > ghi * 8 * step + .02L * ghi)) { R lo, hi, r2 = 0; for (int q = -1; q <= 1; q += 2) { h.range(q < 0 ? PI : 0, 40 * step, lo, hi); r2 = std::max(r2, hi - lo); } if (std::fabs(a - xl) > r2 + ghi * .3L || std::fabs(b - xh) > r2 + ghi * .3L) { why = mon::fmt("drawn from %.6Lg to %.6Lg, the hull goes from %.6Lg to %.6Lg", a, b, xl, xh); return false; } }
  if (!xz && (std::fabs(turn) < 2 * PI - 3 * step || std::fabs(turn) > 2 * PI + 3 * step)) { why = mon::fmt("the curve goes round by %.3Lf rad", turn); return false; }
  return true; }
static bool nearEdge(const std::vector<Spec>& S, V ref) { for (auto& w : S) if (std::fabs(fval(foot(w), ref.x, ref.y) - 1) < 1e-3L) return true; return false; }
static std::vector<Spec> cluster(mon::Rng& r) { std::vector<Spec> S; int n = r.range(1, 5); SpecOpt o; o.planar = true; o.curved = false; o.box = r.uni(.5, 3); double z = r.chance(.5) ? 0 : r.uni(-3, 3); V at = rd(randV(r, 8)); for (int i = 0; i < n; ++i) { Spec s = randSpec(r, mon::fmt("p%d", i), o); s.pos = rd(s.pos + at); s.pos.z = z; s.ref = s.pos; S.push_back(s); } return S; }
static int curves(const Rec& rec) { int n = 0; for (auto& k : rec) n += isPlot(k) && k.v[0].size() > 1; return n; }
static void hull(mon::Ctx& c) {
  auto& r = c.rng; auto S = cluster(r); std::deque<std::shared_ptr<lib::Obstacle>> P; V mean; for (auto& s : S) { P.push_back(build(s, r)); mean = mean + (1 / (R)S.size()) * s.pos; } mean = rd(mean); if (nearEdge(S, mean)) c.skip(); bool in = r.chance(.4), xz = r.chance(.3); std::string why; int res = r.range(30, 300);
  lib::StarShapeHull h(in, (unsigned)res, 0.2); h.set_position(eig(mean)); h.set_reference_position(eig(mean)); h.compute_from_primitives(P); std::string nm = r.chance(.4) ? mon::fmt("hull%d", r.below(99)) : ""; if (r.chance(.5) || !nm.empty()) h.set_name(nm); nm = h.get_name(); char col = "bgrcmyk"[r.below(7)]; take(); h.draw(std::string(1, col), xz ? "xz" : "xy"); Rec rec = take();
  int n = 0, ref = 0, lab = 0; for (auto& k : rec) { if (isPlot(k)) { c.check(colour(k) == col, "hull-colour", "hull drawn in %c and not %c", colour(k), col); if (k.v[0].size() > 1) { ++n; c.check(onHull(k, xz, oracleOf(S, mean, in, 0.2), mean, 2 * PI / (res - 1), why), "hull-curve", "%s hull, resolution %d: %s", in ? "inner" : "outer", res, why.c_str()); c.check((int)k.v[0].size() >= res, "hull-curve", "%d points for resolution %d", (int)k.v[0].size(), res); } else if (style(k) == 'x') ref += nearIs(k, mean, xz); else if (style(k) == 'o') lab += nearIs(k, mean, xz); } else if (k.name == "text") { lab += k.v.size() == 2 && nearIs(k, mean, xz); c.check(!k.s.empty() && k.s[0] == nm, "hull-name", "hull '%s' labelled '%s'", nm.c_str(), k.s.empty() ? "" : k.s[0].c_str()); } }
  c.check(n == 1 && ref == 1 && lab == 1, "hull-drawing", "hull drawn with %d curves, %d reference points, %d labels", n, ref, lab); c.cls(xz ? "hull in xz" : "hull in xy"); if (!nm.empty()) c.cls("named hull"); c.note((double)mean.x); c.note(res); }
static std::shared_ptr<lib::Aggregate> makeAgg(mon::Rng& r, std::vector<Spec>& S) { do S = cluster(r); while (S.size() < 2); std::deque<std::shared_ptr<lib::Obstacle>> P; for (auto& s : S) P.push_back(build(s, r)); auto a = std::make_shared<lib::Aggregate>(P); for (size_t i = 0; i < S.size(); ++i) for (auto& p : P) if (p->get_name() == S[i].name) S[i].ref = vec(p->get_reference_position()); return a; }
static char drawsAggregate(mon::Ctx& c, Rec& rec, const lib::Aggregate& A, const std::vector<Spec>& S, bool xz, char col) {
  char in = 0; for (auto& s : S) { char k = drawsEllipsoid(c, rec, s, xz, col, "aggregate"); c.check(!in || k == in, "one-colour", "members of one aggregate drawn in %c and %c", in, k); in = k; } V ref = vec(A.get_reference_position()); HullOracle ho[2] = {oracleOf(S, ref, false, 0.5), oracleOf(S, ref, true, 0.5)}; bool got[2] = {false, false}; Rec rest; int marks = 0; std::string why, w;
  for (auto& k : rec) { bool use = false; if (isPlot(k) && k.v[0].size() > 1) { for (int q = 0; q < 2 && !use; ++q) if (!got[q]) { if (onHull(k, xz, ho[q], ref, 2 * PI / 499, w)) got[q] = use = true; else if (why.empty() || q == 1 || !got[1]) why += (why.empty() ? "" : "; ") + w; } }
    else if (isPlot(k) && k.v[0].size() == 1 && pointIs(k, ref, xz)) { use = true; ++marks; }
    if (!use) rest.push_back(k); }
  c.check(got[0], "aggregate-hulls", "outer hull not drawn: %s", why.c_str()); c.check(got[1], "aggregate-hulls", "inner hull not drawn: %s", why.c_str()); c.check(marks >= 1, "aggregate-reference", "reference point of the aggregate not drawn"); rec.swap(rest); return in; }
static void aggregate(mon::Ctx& c) { auto& r = c.rng; std::vector<Spec> S; auto A = makeAgg(r, S); bool xz = r.chance(.4); if (nearEdge(S, vec(A->get_reference_position()))) c.skip(); for (auto& s : S) { c.describe(s.str()); if (!drawable(s, xz)) c.skip(); } char col = "bgrcmy"[r.below(6)]; take(); A->draw(std::string(1, col), xz ? "xz" : "xy"); Rec rec = take(); drawsAggregate(c, rec, *A, S, xz, col); c.check(rec.empty(), "extra", "%d further drawing calls", (int)rec.size()); c.cls(xz ? "aggregate in xz" : "aggregate in xy"); c.note((double)S[0].pos.x); }
struct Item { std::vector<Spec> S; std::shared_ptr<lib::Aggregate> A; };
static void panel(mon::Ctx& c, Rec rec, const std::vector<Item>& I, bool xz, const std::vector<std::pair<V, char>>& agents, bool traj, V goal, const std::deque<E3>& hist, double right = 10) {
  double X[2] = {NAN, NAN}, Y[2] = {NAN, NAN}; for (auto& k : rec) if (k.name == "xlim" || k.name == "ylim") { double* b = k.name == "xlim" ? X : Y; if (k.v.size() == 1 && k.v[0].size() == 2) { b[0] = k.v[0][0]; b[1] = k.v[0][1]; } else if (k.v.size() == 2) { b[0] = k.v[0][0]; b[1] = k.v[1][0]; } }
  c.check(X[0] == -10 && X[1] == right && Y[0] == -10 && Y[1] == 10, "view", "the %s panel shows x from %g to %g, %s from %g to %g", xz ? "xz" : "xy", X[0], X[1], xz ? "z" : "y", Y[0], Y[1]);
  std::vector<char> cols; for (auto& it : I) cols.push_back(it.A ? drawsAggregate(c, rec, *it.A, it.S, xz, 0) : drawsEllipsoid(c, rec, it.S[0], xz, 0, "panel"));
  for (size_t i = 0; i < cols.size(); ++i) for (size_t j = i + 1; j < cols.size() && j < i + 6; ++j) { c.check(cols[i] != cols[j], "colours", "obstacles %d and %d are both drawn in %c in the %s panel", (int)i, (int)j, cols[i], xz ? "xz" : "xy"); c.cls("colours compared"); }
  auto want = [&](const char* key, const char* what, V p, char st, char col) { for (size_t i = 0; i < rec.size(); ++i) if (isPlot(rec[i]) && style(rec[i]) == st && (!col || colour(rec[i]) == col) && pointIs(rec[i], p, xz)) { rec.erase(rec.begin() + i); return; } c.check(false, key, "%s at %s not drawn in the %s panel", what, vs(p).c_str(), xz ? "xz" : "xy"); };
  for (auto& a : agents) want("agent", "agent", a.first, 'o', a.second);
  if (traj) { want("goal", "goal", goal, 'x', 'r'); int at = -1; for (size_t i = 0; i < rec.size(); ++i) if (isPlot(rec[i]) && rec[i].v[0].size() == hist.size() && rec[i].v[1].size() == hist.size()) { bool ok = true; for (size_t j = 0; j < hist.size(); ++j) ok &= rec[i].v[0][j] == hist[j](0) && rec[i].v[1][j] == hist[j](xz ? 2 : 1); if (ok) { at = i; break; } } c.check(at >= 0, "trajectory", "trajectory of %d points not drawn in order in the %s panel", (int)hist.size(), xz ? "xz" : "xy"); rec.erase(rec.begin() + at); }
  for (auto& k : rec) c.check(k.name != "plot" && k.name != "text", "extra", "something else drawn in the %s panel: %s %s with %d points", xz ? "xz" : "xy", k.name.c_str(), k.s.empty() ? "" : k.s[0].c_str(), k.v.empty() ? 0 : (int)k.v[0].size()); c.checks++;
  c.cls(xz ? "xz panel" : "xy panel"); }
static void configuration(mon::Ctx& c) {
  auto& r = c.rng; std::vector<Item> I; std::deque<std::shared_ptr<lib::Obstacle>> L; int n = r.chance(.1) ? r.range(6, 9) : r.range(0, 4); for (int i = 0; i < n; ++i) { Item it; if (r.chance(.12)) { it.A = makeAgg(r, it.S); L.push_back(it.A); } else { it.S.push_back(spec(r, r.chance(.2) ? "" : mon::fmt("ob%d", i), r.chance(.3))); L.push_back(build(it.S[0], r)); } if (it.A && nearEdge(it.S, vec(it.A->get_reference_position()))) c.skip(); for (auto& s : it.S) { c.describe(s.str()); if (!drawable(s, false) || !drawable(s, true)) c.skip(); } I.push_back(it); }
  V x = rd(randV(r, 9)), y = rd(randV(r, 9)), g = rd(randV(r, 9)); lib::Agent a = buildAgent(r, x, rd(randV(r, 2)), r.uni(0, 1), randQ(r)), b = buildAgent(r, y, rd(randV(r, 2)), 0); std::deque<E3> h; int hn = r.chance(.2) ? r.range(0, 3) : r.range(4, 60); for (int i = 0; i < hn; ++i) h.push_back(eig(randV(r, 9)));
  bool is3 = r.chance(.5), show = r.chance(.5); std::string nm; switch (r.below(4)) { case 0: break; case 1: nm = "figure"; break; case 2: nm = mon::fmt("run %d.a", r.below(100)); break; default: nm = "x"; }
  int kind = r.below(3); take();
  if (kind == 0) pt::plot_configuration(a, L, eig(g), h, nm, show, is3); else if (kind == 1) pt::plot_configuration(L, nm, show, is3); else pt::plot_guard_configuration(a, b, L, eig(g), h, nm, show, is3);
  Rec rec = take(); int nf = 0, ns = 0, nsh = 0, nc = 0, iS = -1, iSh = -1, iC = -1, last = -1; std::string path;
  for (size_t i = 0; i < rec.size(); ++i) { auto& k = rec[i]; if (k.name == "figure") ++nf; else if (k.name == "savefig") { ++ns; iS = i; path = k.s.empty() ? "" : k.s[0]; } else if (k.name == "show") { ++nsh; iSh = i; } else if (k.name == "close") { ++nc; iC = i; } else if (k.name == "plot" || k.name == "text") last = i; }
  c.check(nf == 1, "figure", "%d figures", nf); c.check(ns == (nm.empty() ? 0 : 1), "save", "%d times saved, name '%s'", ns, nm.c_str()); if (ns) { c.check(path == "/tmp/" + nm + ".png", "save-path", "saved as '%s', name given '%s'", path.c_str(), nm.c_str()); c.check(iS > last, "save-order", "saved before everything was drawn"); c.check(!nsh || iS < iSh, "save-order", "saved after the window was shown"); c.cls("saved"); }
  c.check(nsh == (show ? 1 : 0), "show", "shown %d times, asked %d", nsh, (int)show); if (nsh) { c.check(iSh > last, "show-order", "shown before everything was drawn"); c.cls("shown"); } c.check(nc == 1 && iC > last && iC > iSh && iC > iS, "close", "figure closed %d times", nc);
  std::vector<std::pair<V, char>> ag; if (kind != 1) ag.push_back({x, 'b'}); if (kind == 2) ag.push_back({y, 'g'});
  std::vector<int> sub; for (size_t i = 0; i < rec.size(); ++i) if (rec[i].name == "subplot") sub.push_back(i);
  if (is3) { c.check(sub.size() == 2, "panels", "%d panels instead of 2", (int)sub.size()); int k1 = (int)rec[sub[0]].v.back()[0], k2 = (int)rec[sub[1]].v.back()[0]; c.check(k1 == 1 && k2 == 2 && rec[sub[0]].v.size() == 3 && rec[sub[1]].v.size() == 3 && rec[sub[0]].v[0] == rec[sub[1]].v[0] && rec[sub[0]].v[1] == rec[sub[1]].v[1] && rec[sub[0]].v[0][0] == 2 && rec[sub[0]].v[1][0] == 1, "panels", "panels %d and %d, not one above the other", k1, k2); for (int i = 0; i < sub[0]; ++i) c.check(rec[i].name != "plot" && rec[i].name != "text", "panels", "drawn before the first panel"); panel(c, Rec(rec.begin() + sub[0] + 1, rec.begin() + sub[1]), I, false, ag, kind != 1, g, h); panel(c, Rec(rec.begin() + sub[1] + 1, rec.end()), I, true, ag, kind != 1, g, h); c.cls("two panels"); }
  else { c.check(sub.size() <= 1, "panels", "%d panels instead of one", (int)sub.size()); panel(c, rec, I, kind == 2, ag, kind != 1, g, h, kind == 2 ? 20 : 10); c.cls("one panel"); }
  c.cls(kind == 0 ? "configuration with agent" : kind == 1 ? "configuration without agent" : "guard configuration"); for (auto& it : I) if (it.A) c.cls("aggregate in a configuration"); if (n == 0) c.cls("nothing to draw"); if (n > 6) c.cls("more obstacles than colours"); c.note((double)x.x); c.note((double)n); }
static void run(mon::Ctx& c) { int k = c.rng.below(20); if (k < 8) ellipsoid(c); else if (k < 10) hull(c); else if (k < 11) aggregate(c); else configuration(c); }
int main(int a, char** v) { dressUp() = 1; return mon::drive(a, v, "C22", run); }
