// C24: printed descriptions say what the object holds, in full, in order, and change nothing.
#include "planar.hpp"
#include <sstream>
#include <iomanip>
#include "DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp"
typedef std::vector<R> Nums;
// every number of a text, in order; labels and names are made of letters
static Nums numbers(const std::string& s) {
  Nums v; for (size_t i = 0; i < s.size();) { char a = s[i]; bool word = i > 0 && (std::isalnum((unsigned char)s[i - 1]) || s[i - 1] == '_');
    bool num = !word && (std::isdigit((unsigned char)a) || ((a == '-' || a == '+' || a == '.') && i + 1 < s.size() && (std::isdigit((unsigned char)s[i + 1]) || s[i + 1] == '.')));
    if (num) { char* e; v.push_back(std::strtod(s.c_str() + i, &e)); size_t k = e - s.c_str(); i = k > i ? k : i + 1; } else ++i; }
  return v; }
static void put(Nums& n, const E3& v) { for (int i = 0; i < 3; ++i) n.push_back(v(i)); }
static void putA(Nums& n, const Eigen::Array3d& v) { for (int i = 0; i < 3; ++i) n.push_back(v(i)); }
struct Want { Nums n; std::vector<size_t> rot; std::vector<std::string> words; };  // rot: where an angle and an axis stand
static void pose(Want& w, const E3& p, const Eigen::Quaterniond& q) { put(w.n, p); w.n.push_back(q.w()); w.n.push_back(q.x()); w.n.push_back(q.y()); w.n.push_back(q.z()); w.rot.push_back(w.n.size()); for (int i = 0; i < 4; ++i) w.n.push_back(0); for (auto s : {"position", "orientation"}) w.words.push_back(s); }
template <class S> static void state(Want& w, const S& s) { pose(w, s.get_position(), s.get_orientation()); put(w.n, s.get_linear_velocity()); put(w.n, s.get_angular_velocity()); for (auto t : {"linear velocity", "angular velocity"}) w.words.push_back(t); }
static const char* kindOf(const lib::Obstacle& o) { return dynamic_cast<const lib::Ellipsoid*>(&o) ? "Ellipsoid" : dynamic_cast<const lib::Aggregate*>(&o) ? "Aggregate" : dynamic_cast<const lib::StarShapeHull*>(&o) ? "StarShapeHull" : ""; }
static void obst(Want& w, const lib::Obstacle& o) {
  w.words.push_back(kindOf(o)); w.words.push_back(o.get_name()); state(w, o); put(w.n, o.get_reference_position()); putA(w.n, o.get_safety_margin()); for (auto t : {"reference position", "safety margin"}) w.words.push_back(t);
  if (auto* e = dynamic_cast<const lib::Ellipsoid*>(&o)) { putA(w.n, e->get_axis_lengths()); putA(w.n, e->get_curvature_factor()); for (auto t : {"axis lengths", "curvature"}) w.words.push_back(t); }
  if (auto* a = dynamic_cast<const lib::Aggregate*>(&o)) for (auto& p : a->get_primitives()) obst(w, *p); }
static std::string low(std::string s) { for (auto& c : s) c = std::tolower((unsigned char)c); return s; }
static void compare(mon::Ctx& c, const std::string& text, const Want& w, R rel, const char* what) {
  Nums n = numbers(text); c.check(n.size() == w.n.size(), "count", "%s: %zu numbers printed, %zu held: %s", what, n.size(), w.n.size(), text.c_str());
  std::vector<bool> skip(n.size()); for (size_t k : w.rot) for (int i = 0; i < 4; ++i) skip[k + i] = true;
  for (size_t i = 0; i < n.size(); ++i) if (!skip[i]) c.check(std::fabs(n[i] - w.n[i]) <= rel * std::fabs(w.n[i]), "value", "%s: number %zu printed as %.17Lg, held %.17Lg: %s", what, i, n[i], w.n[i], text.c_str());
  for (size_t k : w.rot) { Q q{w.n[k - 4], w.n[k - 3], w.n[k - 2], w.n[k - 1]}; V ax(n[k + 1], n[k + 2], n[k + 3]); R al = norm(ax); c.check(std::fabs(al - 1) < 3 * rel + 1e-12L, "axis", "%s: rotation axis of length %.12Lg: %s", what, al, text.c_str()); c.check(qdist(qaxis(ax, n[k]), q) < 20 * rel + 1e-12L, "rotation", "%s: angle and axis are not the orientation: %s", what, text.c_str()); }
  size_t at = 0; std::string t = low(text); for (auto& s : w.words) { size_t f = t.find(low(s), at); c.check(f != std::string::npos, "word", "%s: '%s' not printed, or out of order: %s", what, s.c_str(), text.c_str()); at = f + s.size(); } }
template <class T> static void judge(mon::Ctx& c, const T& o, const Want& w, const char* what) {
  auto& r = c.rng; int pr = r.chance(.5) ? 17 : r.range(6, 16); std::ostringstream os; os << std::setprecision(pr); if (r.chance(.3)) os << std::scientific; auto fl = os.flags(); std::string pre = r.chance(.5) ? "" : "before ", post = " after"; os << pre; std::ostream& back = os << o; bool same = &back == &os; os << post;
  c.check(same, "stream", "%s: printing returns another stream", what); c.check(os.precision() == pr && os.flags() == fl && os.good(), "format", "%s: printing changed the stream's format", what);
  std::string s = os.str(); c.check(s.size() >= pre.size() + post.size() && s.compare(0, pre.size(), pre) == 0 && s.compare(s.size() - post.size(), post.size(), post) == 0, "stream", "%s: text around it is damaged: %s", what, s.c_str());
  compare(c, s, w, pr >= 17 ? 0 : std::pow((R)10, 1 - pr), what); std::ostringstream again; again << std::setprecision(pr); again.flags(fl); again << pre << o << post; c.check(again.str() == s, "repeat", "%s: printed twice, differently", what); c.cls(what); for (size_t i = 0; i < w.n.size() && i < 6; ++i) c.note((double)w.n[i]); }
static R num(mon::Rng& r) { if (r.chance(.08)) return r.sgn() * (r.chance(.5) ? r.logu(1e-140, 1e-9) : r.logu(1e9, 1e140)); switch (r.below(5)) { case 0: return r.range(-9, 9); case 1: return r.sgn() * r.logu(1e-9, 1e-3); case 2: return r.sgn() * r.logu(1e3, 1e9); default: return r.uni(-9, 9); } }
static E3 v3(mon::Rng& r) { E3 v; for (int i = 0; i < 3; ++i) v(i) = (double)num(r); return v; }
static Eigen::Quaterniond ori(mon::Rng& r) { Q q = randQ(r); if (r.chance(.3)) q = Q{-q.w, -q.x, -q.y, -q.z}; return eq(q); }
static std::string word(mon::Rng& r) { if (r.chance(.1)) { static const std::vector<std::string> odd{"envelope", "aggregate", "Aggregate", "Ellipsoid", "obstacle", "position", "two words", ""}; return odd[r.below(odd.size())]; } std::string s; int n = r.range(1, 24); for (int i = 0; i < n; ++i) s += (char)('a' + r.below(26)); return s; }
static lib::State st(mon::Rng& r) { return lib::State(v3(r), ori(r), v3(r), v3(r)); }
static Eigen::Array3d marg(mon::Rng& r) { return Eigen::Array3d(r.uni(0, 2), r.chance(.2) ? 0 : r.logu(1e-6, 1), r.uni(0, 2)); }
static std::shared_ptr<lib::Ellipsoid> ell(mon::Rng& r, const std::string& n) { auto e = std::make_shared<lib::Ellipsoid>(n, st(r), v3(r), marg(r)); e->set_axis_lengths(Eigen::Array3d(r.uni(.1, 5), r.uni(.1, 5), r.uni(.1, 5))); if (r.chance(.5)) e->set_curvature_factor(Eigen::Array3d(r.range(1, 4), r.range(1, 4), r.range(1, 4))); return e; }
static void change(mon::Rng& r, lib::Obstacle& o) { for (int k = r.range(1, 4); k--;) switch (r.below(8)) { case 0: o.set_position(v3(r)); break; case 1: o.set_orientation(ori(r)); break; case 2: o.set_linear_velocity(v3(r)); break; case 3: o.set_angular_velocity(v3(r)); break; case 4: o.set_reference_position(v3(r)); break; case 5: o.set_name(word(r)); break; case 6: o.set_pose(lib::Pose(v3(r), ori(r))); break; default: if (auto* e = dynamic_cast<lib::Ellipsoid*>(&o)) e->set_axis_lengths(Eigen::Array3d(r.uni(.1, 5), r.uni(.1, 5), r.uni(.1, 5))); } }
static void run(mon::Ctx& c) {
  auto& r = c.rng; int kind = r.below(7); c.describe(mon::fmt("kind %d", kind));
  switch (kind) {
    case 0: { lib::Pose p(v3(r), ori(r)); for (int k = r.below(3); k--;) p *= lib::Pose(v3(r), ori(r)); Want w; pose(w, p.get_position(), p.get_orientation()); judge(c, p, w, "pose"); break; }
    case 1: { lib::State s = st(r); if (r.chance(.5)) s.set_angular_velocity(v3(r)); Want w; state(w, s); judge(c, s, w, "state"); break; }
    case 2: { lib::Agent a(st(r), r.uni(0, 2)); if (r.chance(.5)) { a.set_safety_margin(r.uni(0, 3)); a.set_linear_velocity(v3(r)); } Want w; w.words.push_back("agent"); state(w, a); w.n.push_back(a.get_safety_margin()); w.words.push_back("safety margin"); judge(c, a, w, "agent"); break; }
    case 3: { lib::Obstacle o(word(r), st(r), v3(r), marg(r)); if (r.chance(.6)) change(r, o); Want w; obst(w, o); judge(c, o, w, "base obstacle"); break; }
    case 4: { auto e = ell(r, word(r)); if (r.chance(.6)) change(r, *e); Want w; obst(w, *e); if (r.chance(.5)) judge(c, *e, w, "ellipsoid"); else judge(c, static_cast<const lib::Obstacle&>(*e), w, "ellipsoid through its base"); break; }
    case 5: { std::deque<std::shared_ptr<lib::Obstacle>> l; int n = r.range(1, 5); for (int i = 0; i < n; ++i) { auto e = ell(r, word(r)); e->set_position(r.uni(-2, 2), r.uni(-2, 2), 0); e->set_orientation(eq(qyaw(r.uni(-3, 3)))); e->set_curvature_factor(Eigen::Array3d(1, 1, 1)); l.push_back(e); }
      if (r.chance(.3)) { int k = r.range(1, n); std::deque<std::shared_ptr<lib::Obstacle>> in(l.begin(), l.begin() + k); l.erase(l.begin(), l.begin() + k); if (r.chance(.3)) l.push_back(std::make_shared<lib::Obstacle>(word(r), st(r), v3(r), marg(r))); l.push_back(std::make_shared<lib::Aggregate>(in)); if (r.chance(.5)) l.push_front(std::make_shared<lib::StarShapeHull>(in, r.chance(.5), 24)); c.cls("nested aggregate"); }
      std::shared_ptr<lib::Obstacle> a = std::make_shared<lib::Aggregate>(l); if (r.chance(.4)) a->set_reference_position(E3(r.uni(-1, 1), r.uni(-1, 1), 0)); if (r.chance(.4)) l[0]->set_linear_velocity(v3(r)); Want w; obst(w, *a); judge(c, *a, w, "aggregate"); break; }
    default: { std::deque<std::shared_ptr<lib::Obstacle>> l; int n = r.range(1, 3); for (int i = 0; i < n; ++i) { auto e = ell(r, word(r)); e->set_position(r.uni(-2, 2), r.uni(-2, 2), 0); e->set_orientation(eq(qyaw(r.uni(-3, 3)))); l.push_back(e); }
      lib::StarShapeHull h(l, r.chance(.5), 40); std::string nm = h.get_name(); Want w; obst(w, h); judge(c, static_cast<const lib::Obstacle&>(h), w, "hull"); } } }
int main(int a, char** v) { return mon::drive(a, v, "C24", run); }
