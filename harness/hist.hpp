// Random histories over the whole public API (no plotting). Every value that comes back is handed to the sink.
#pragma once
#include "planar.hpp"
#include <sstream>
#include "DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp"
struct Sink { virtual ~Sink() {} virtual void num(const char* what, const double* p, int n) = 0; virtual void text(const char* what, const std::string& s) = 0; virtual void op(const std::string& s) {}
  void d(const char* w, double x) { num(w, &x, 1); } void b(const char* w, bool x) { volatile double y = 0; if (x) y = 1; double z = y; num(w, &z, 1); }
  void v(const char* w, const E3& e) { num(w, e.data(), 3); } void a(const char* w, const Eigen::Array3d& e) { num(w, e.data(), 3); } void q(const char* w, const Eigen::Quaterniond& e) { num(w, e.coeffs().data(), 4); }
  void m(const char* w, const Eigen::MatrixXd& e) { num(w, e.data(), (int)e.size()); } };
struct World {
  std::vector<std::shared_ptr<lib::Obstacle>> obs; std::vector<lib::Agent> agents; std::vector<lib::Environment> envs; std::vector<std::shared_ptr<lib::StarShapeHull>> hulls; std::vector<std::shared_ptr<lib::Aggregate>> aggs; int names = 0; std::vector<std::string> registered; };
struct Hist {
  mon::Rng& r; Sink& s; World w; long ops = 0; std::map<std::string, long>* cls = nullptr; bool degenerate;
  Hist(mon::Rng& r_, Sink& s_) : r(r_), s(s_) { degenerate = r.chance(.4); }
  void seen(const char* k) { if (cls) ++(*cls)[k]; s.op(k); ++ops; }
  E3 point() { int k = r.below(10); if (k < 3 && !w.obs.empty()) { auto& o = *w.obs[r.below(w.obs.size())]; E3 p = r.chance(.5) ? o.get_position() : o.get_reference_position(); if (k == 0) return p; V off = r.chance(.5) ? V(-(R)r.uni(0, 4), 0, 0) : V(); off[r.below(3)] += r.uni(-3, 3); return p + eig(off); }
    if (k == 3) return E3(0, 0, 0); if (k == 4) { E3 p(0, 0, 0); p(r.below(3)) = r.uni(-5, 5); return p; } if (k == 5) return eig(r.logu(1e-6, 1e6) * randDir(r)); E3 p = eig(randV(r, 6)); if (r.chance(.6)) p(2) = 0; return p; }
  E3 vel() { switch (r.below(6)) { case 0: return E3(0, 0, 0); case 1: return E3(0, 0, r.uni(-1, 1)); case 2: { E3 v(0, 0, 0); v(r.below(2)) = r.uni(-1, 1); return v; } case 3: return eig(r.logu(1e-12, 1e9) * randDir(r)); default: { E3 v = eig(randV(r, 2)); if (r.chance(.5)) v(2) = 0; return v; } } }
  Eigen::Quaterniond ori() { Q q = r.chance(.6) ? qyaw(r.uni(-3.14, 3.14)) : randQ(r); R k = r.chance(.7) ? 1 : (R)r.logu(.1, 10); return eq(Q{q.w * k, q.x * k, q.y * k, q.z * k}); }
  Eigen::Array3d marg() { return r.chance(.4) ? Eigen::Array3d(0, 0, 0) : Eigen::Array3d(r.uni(0, 1), r.uni(0, 1), r.uni(0, 1)); }
  lib::State state() { switch (r.below(6)) { case 0: return lib::State(); case 1: return lib::State(lib::Pose(point(), ori())); case 2: return lib::State(r.uni(-5, 5), r.uni(-5, 5), 0); case 3: return lib::State(point()); case 4: return lib::State(point(), ori()); default: return lib::State(point(), ori(), vel(), vel()); } }
  std::string name() { return r.chance(.05) ? "" : r.chance(.1) ? "a name that is too long for the small string buffer " + std::to_string(w.names++) : "o" + std::to_string(w.names++); }
  template <class T> std::shared_ptr<lib::Obstacle> make() {
    switch (r.below(8)) { case 0: return std::make_shared<T>(name(), r.uni(0, 1)); case 1: return std::make_shared<T>(name(), marg()); case 2: return std::make_shared<T>(name(), r.uni(-4, 4), r.uni(-4, 4), 0., r.uni(0, 1)); case 3: return std::make_shared<T>(name(), r.uni(-4, 4), r.uni(-4, 4), 0., marg());
      case 4: return std::make_shared<T>(name(), state(), r.uni(0, 1)); case 5: return std::make_shared<T>(name(), state(), marg()); case 6: return std::make_shared<T>(name(), state(), point(), r.uni(0, 1)); default: return std::make_shared<T>(name(), state(), point(), marg()); } }
  void shape(lib::Obstacle& o) { if (auto* e = dynamic_cast<lib::Ellipsoid*>(&o)) { if (r.chance(.8)) { Eigen::Array3d l(r.logu(.2, 4), r.logu(.2, 4), r.logu(.2, 4)); if (degenerate && r.chance(.3)) l(r.below(3)) = 0; e->set_axis_lengths(l); } if (r.chance(.2)) e->set_curvature_factor(Eigen::Array3d(r.range(1, 4), r.range(1, 4), r.range(1, 4))); } }
  void readObstacle(const lib::Obstacle& o) {
    s.text("type", o.get_type()); s.text("name", o.get_name()); s.v("position", o.get_position()); s.q("orientation", o.get_orientation()); s.v("linear velocity", o.get_linear_velocity()); s.v("angular velocity", o.get_angular_velocity()); s.v("reference position", o.get_reference_position()); s.a("safety margin", o.get_safety_margin()); s.v("state position", o.get_state().get_position()); s.v("pose position", o.get_pose().get_position());
    if (auto* e = dynamic_cast<const lib::Ellipsoid*>(&o)) { s.a("axis lengths", e->get_axis_lengths()); s.a("curvature", e->get_curvature_factor()); s.d("axis length", e->get_axis_lengths(1)); s.d("curvature", e->get_curvature_factor(2)); s.d("area", e->area()); s.d("area", e->area(false)); }
    if (auto* a = dynamic_cast<const lib::Aggregate*>(&o)) { for (auto& p : a->get_primitives()) s.text("member", p->get_name()); } }
  lib::Agent& agent() { if (w.agents.empty()) makeAgent(); return w.agents[r.below(w.agents.size())]; }
  void makeAgent() { switch (r.below(4)) { case 0: w.agents.push_back(lib::Agent()); break; case 1: w.agents.push_back(lib::Agent(r.uni(0, 1))); break; case 2: w.agents.push_back(lib::Agent(state())); break; default: w.agents.push_back(lib::Agent(state(), r.uni(0, 1))); } }
  void readAgent(const lib::Agent& a) { s.v("agent position", a.get_position()); s.q("agent orientation", a.get_orientation()); s.v("agent velocity", a.get_linear_velocity()); s.v("agent angular velocity", a.get_angular_velocity()); s.d("agent margin", a.get_safety_margin()); s.v("agent state", a.get_state().get_position()); s.v("agent pose", a.get_pose().get_position());
    readObstacle(a.get_envelope()); }
  void query(lib::Obstacle& o) {
    lib::Agent& a = agent(); if (r.chance(.7)) { a.set_position(point()); if (r.chance(.5)) a.set_linear_velocity(vel()); } E3 p = point();
    switch (r.below(12)) {
      case 0: s.d("distance to point", o.compute_distance_to_point(p)); s.d("distance to point", o.compute_distance_to_point(p, r.uni(0, 1))); s.d("distance to point", o.compute_distance_to_point(p, marg())); break;
      case 1: s.d("distance to agent", o.compute_distance_to_agent(a)); break;
      case 2: s.v("normal", o.compute_normal_to_agent(a)); break;
      case 3: s.b("inside", o.point_is_inside(p)); break;
      case 4: s.b("closed", o.is_closed()); break;
      case 5: s.v("repulsion vector", o.compute_repulsion_vector(a)); s.v("repulsion", o.generate_repulsion(a)); s.v("repulsion", o.generate_repulsion(a, r.uni(0, 4))); s.d("repulsion factor", o.get_repulsion_factor(a)); break;
      case 6: if (!w.obs.empty()) { s.b("intersecting", o.is_intersecting(*w.obs[r.below(w.obs.size())])); std::deque<std::shared_ptr<lib::Obstacle>> l(w.obs.begin(), w.obs.begin() + r.below(w.obs.size() + 1)); s.b("intersecting list", o.is_intersecting(l)); } break;
      case 7: { s.m("samples", o.sample_from_parameterization(r.range(2, 40), r.chance(.5))); break; }
      case 8: { auto t = o.compute_interesection_points(p, point()); s.b("crosses", t.first); s.v("crossing", t.second.first); s.v("crossing", t.second.second); break; }
      case 9: { std::ostringstream os; os << o; s.text("printed", os.str()); break; }
      case 10: { auto t = lib::Modulation::compute_modulation_matrix(a, o); s.m("modulation matrix", std::get<0>(t)); s.m("basis", std::get<1>(t)); s.d("distance", std::get<2>(t)); auto b = lib::Modulation::compute_basis_matrices(eig(randDir(r)), a, o); s.m("reference basis", b.first); s.m("orthogonal basis", b.second); break; }
      default: s.b("agent in obstacle", a.in_obstacle(o)); } 
    seen("query"); }
  std::deque<std::shared_ptr<lib::Obstacle>> some(int lo, int hi, bool ell) { std::deque<std::shared_ptr<lib::Obstacle>> d; int n = r.range(lo, hi); for (int i = 0; i < n; ++i) { if (!w.obs.empty() && r.chance(.6)) { auto& o = w.obs[r.below(w.obs.size())]; if (!ell || o->get_type() == "Ellipsoid") { bool dup = false; for (auto& x : d) dup |= x == o; if (!dup) { d.push_back(o); continue; } } } auto e = make<lib::Ellipsoid>(); shape(*e); w.obs.push_back(e); d.push_back(e); } return d; }
  void mutate(lib::Obstacle& o) { switch (r.below(8)) { case 0: o.set_name(name()); break; case 1: o.set_pose(lib::Pose(point(), ori())); break; case 2: o.set_position(point()); break; case 3: o.set_position(r.uni(-4, 4), r.uni(-4, 4), 0); break; case 4: o.set_orientation(ori()); break; case 5: o.set_linear_velocity(vel()); o.set_angular_velocity(vel()); break; case 6: o.set_reference_position(point()); break; default: shape(o); } seen("obstacle changed"); }
  void environment() {
    if (w.envs.empty() || (w.envs.size() < 3 && r.chance(.1))) { if (r.chance(.3)) w.envs.emplace_back(); else w.envs.emplace_back(r.chance(.5)); seen("environment made"); }
    int i = r.below(w.envs.size()); lib::Environment& e = w.envs[i]; std::string n = w.obs.empty() ? "x" : w.obs[r.below(w.obs.size())]->get_name(); if (!w.registered.empty() && r.chance(.6)) n = w.registered[r.below(w.registered.size())]; if (r.chance(.1)) n = "unknown name";
    switch (r.below(9)) {
      case 0: case 1: case 2: if (!w.obs.empty()) { auto& o = w.obs[r.below(w.obs.size())]; try { e.add_obstacle(o); s.b("added", true); w.registered.push_back(o->get_name()); seen("obstacle added"); } catch (const std::runtime_error& x) { s.text("refused", x.what()); seen("addition refused"); } } break;
      case 3: try { e.remove_obstacle(n); s.b("removed", true); seen("obstacle removed"); } catch (const lib::Exceptions::ObstacleNotInEnvironmentException& x) { s.text("refused", x.what()); seen("removal refused"); } break;
      case 4: try { std::shared_ptr<lib::Obstacle> o = e[n]; s.text("found", o->get_name()); seen("lookup"); } catch (const std::exception& x) { s.text("not found", x.what()); seen("lookup refused"); } break;
      case 5: e.set_aggregated(r.chance(.5)); s.b("aggregated", e.is_aggregated()); break;
      case 6: e.update(); for (auto& o : e.get_obstacle_list()) s.text("listed", o->get_name()); if (!e.get_obstacle_list().empty()) query(*e.get_obstacle_list()[r.below(e.get_obstacle_list().size())]); seen("environment updated"); break;
      case 7: { if (r.chance(.5)) e.update(); modulate(e); break; }
      default: if (w.envs.size() < 6) { lib::Environment c(e); if (r.chance(.5)) c.update(); w.envs.push_back(c); } else { lib::Environment c(false); c = e; w.envs[r.below(w.envs.size())] = c; } seen("environment copied"); } }
  E3 modulate(const lib::Environment& e) { lib::Agent& a = agent(); if (r.chance(.6)) a.set_position(point()); if (r.chance(.6)) a.set_linear_velocity(vel()); E3 v = lib::Modulation::modulate_velocity(a, e, r.chance(.3), r.chance(.5), r.chance(.4), r.chance(.5) ? 1 : r.uni(0, 3), r.chance(.5) ? 2 : r.uni(.5, 4)); s.v("modulated velocity", v); s.b("path", a.exist_path(point(), e.get_obstacle_list())); s.b("envelope", a.get_envelope().is_intersecting(e.get_obstacle_list())); seen("modulated"); if (!finite3(v) && finite3(a.get_linear_velocity())) throw mon::CaseFail{"not-finite", mon::fmt("modulated velocity (%g,%g,%g) for finite inputs", v(0), v(1), v(2))}; return v; }
  void step() {
    switch (r.below(22)) {
      case 0: case 1: w.obs.push_back(make<lib::Ellipsoid>()); shape(*w.obs.back()); readObstacle(*w.obs.back()); seen("ellipsoid made"); break;
      case 2: w.obs.push_back(make<lib::Obstacle>()); readObstacle(*w.obs.back()); query(*w.obs.back()); seen("base obstacle made"); break;
      case 3: { std::deque<std::shared_ptr<lib::Obstacle>> d = some(0, 4, r.chance(.7)); if (d.empty()) d = some(1, 2, true); auto h = r.chance(.4) ? std::make_shared<lib::StarShapeHull>() : r.chance(.4) ? std::make_shared<lib::StarShapeHull>(r.chance(.5), (unsigned)r.range(3, 60), r.uni(.05, 1)) : std::make_shared<lib::StarShapeHull>(d, r.chance(.5), (unsigned)r.range(3, 60), r.uni(.05, 1)); w.obs.push_back(h); w.hulls.push_back(h); readObstacle(*h); query(*h); if (r.chance(.6)) { h->compute_from_primitives(d); query(*h); } seen("hull made"); break; }
      case 4: if (!w.hulls.empty()) { auto& h = w.hulls[r.below(w.hulls.size())]; auto d = some(1, 4, true); if (r.chance(.4)) h->set_resolution(r.range(3, 80)); if (r.chance(.5)) h->compute_from_primitives(d, point()); else h->compute_from_primitives(d); query(*h); query(*h); seen("hull recomputed"); } break;
      case 5: { auto a = r.chance(.4) ? std::make_shared<lib::Aggregate>() : std::make_shared<lib::Aggregate>(some(1, 5, r.chance(.8))); w.obs.push_back(a); w.aggs.push_back(a); readObstacle(*a); query(*a); seen("aggregate made"); break; }
      case 6: if (!w.aggs.empty()) { auto& a = w.aggs[r.below(w.aggs.size())]; auto d = some(1, 1, true); if (a->get_primitives().size() < 7) { a->add_primitive(d[0], r.chance(.6)); query(*a); if (r.chance(.5)) { a->update_hull(); query(*a); } seen("member added"); } } break;
      case 7: { lib::Obstacle* p; switch (r.below(4)) { case 0: p = new lib::Ellipsoid(name(), state(), marg()); break; case 1: p = new lib::Aggregate(some(1, 3, true)); break; case 2: p = new lib::StarShapeHull(some(1, 3, true), r.chance(.5), 20, .3); break; default: p = new lib::Obstacle(name(), state()); } query(*p); delete p; if (r.chance(.5)) { std::unique_ptr<lib::Obstacle> u(new lib::Ellipsoid("unique")); query(*u); } seen("deleted through the base class"); break; }
      case 8: if (!w.obs.empty()) { auto& o = w.obs[r.below(w.obs.size())]; if (auto* e = dynamic_cast<lib::Ellipsoid*>(o.get())) { auto c = std::make_shared<lib::Ellipsoid>(*e); readObstacle(*c); if (r.chance(.5)) { lib::Ellipsoid x("other"); x = *c; readObstacle(x); } c->set_name(name()); w.obs.push_back(c); } else if (auto* a = dynamic_cast<lib::Aggregate*>(o.get())) { lib::Aggregate c(*a); query(c); c = *a; query(c); } else if (auto* h = dynamic_cast<lib::StarShapeHull*>(o.get())) { lib::StarShapeHull c(*h); query(c); } else { lib::Obstacle c(*o); readObstacle(c); c = *o; } seen("obstacle copied"); } break;
      case 9: case 10: if (!w.obs.empty()) mutate(*w.obs[r.below(w.obs.size())]); break;
      case 11: case 12: case 13: if (!w.obs.empty()) query(*w.obs[r.below(w.obs.size())]); break;
      case 14: makeAgent(); readAgent(w.agents.back()); seen("agent made"); break;
      case 15: { lib::Agent& a = agent(); switch (r.below(9)) { case 0: a.set_position(point()); break; case 1: a.set_orientation(ori()); break; case 2: a.set_linear_velocity(vel()); break; case 3: a.set_angular_velocity(vel()); break; case 4: a.set_safety_margin(r.uni(0, 2)); break; case 5: a.set_pose(lib::Pose(point(), ori())); break; case 6: a.transform(lib::Pose(point(), ori())); break; case 7: { lib::Agent b = a.transformed(lib::Pose(point(), ori())); readAgent(b); if (r.chance(.5)) w.agents.push_back(b); break; } default: { lib::Agent b(a); b = w.agents[r.below(w.agents.size())]; b = b; w.agents[r.below(w.agents.size())] = b; b.set_position(point()); readAgent(b); } } readAgent(agent()); std::ostringstream os; os << agent(); s.text("printed", os.str()); if (w.agents.size() > 12) w.agents.erase(w.agents.begin() + r.below(w.agents.size())); seen("agent changed"); break; }
      case 16: case 17: case 18: environment(); break;
      case 19: if (!w.obs.empty() && r.chance(.5)) { int i = r.below(w.obs.size()); auto o = w.obs[i]; w.obs.erase(w.obs.begin() + i); seen("obstacle dropped"); if (r.chance(.3)) { w.hulls.clear(); w.aggs.clear(); } if (r.chance(.2) && !w.envs.empty()) { w.envs.erase(w.envs.begin() + r.below(w.envs.size())); seen("environment dropped"); } } break;
      case 20: { auto d = some(0, 5, true); auto l = lib::Aggregation::aggregate_obstacles(d); for (auto& o : l) { readObstacle(*o); query(*o); } seen("aggregated"); break; }
      default: { int n = r.range(2, 30); auto l = lib::MathTools::linspace(r.uni(-5, 5), r.uni(-5, 5), n); s.num("linspace", l.data(), n); auto g = lib::MathTools::gridspace({r.uni(-1, 1), r.uni(-1, 1)}, {r.uni(-1, 1), r.uni(-1, 1)}, {r.range(2, 6), r.range(2, 6)}); for (auto& x : g) s.num("grid", x.data(), 2); s.v("polar", lib::MathTools::cartesian_to_polar(point())); s.v("cartesian", lib::MathTools::polar_to_cartesian(E3(r.uni(0, 3), r.uni(0, 3), r.uni(-3, 3)))); Eigen::MatrixXd A = Eigen::MatrixXd::Zero(3, n); for (int i = 0; i < n; ++i) { A(0, i) = r.uni(0, 1); A(1, i) = r.uni(-3, 3); A(2, i) = l[0] <= l[n - 1] ? l[i] : l[n - 1 - i]; } s.m("sorted", lib::MathTools::sorted_cols_by_theta(A)); auto f = lib::MathTools::find_closest_points(A, E3(0, 0, r.uni(-6, 6)), 2); s.d("index", f.first); s.d("index", f.second); 
          for (int bad = -1; bad < 2; ++bad) { bool ok = false; try { if (r.chance(.5)) lib::MathTools::linspace(0, 1, bad); else if (r.chance(.5)) lib::MathTools::gridspace({0, 0}, {1, 1}, {2, std::max(bad, 0)}); else lib::Ellipsoid("x").sample_from_parameterization(std::max(bad, 0), true); } catch (const std::exception&) { ok = true; } if (!ok) throw mon::CaseFail{"invalid-accepted", mon::fmt("%d samples are not refused with a standard exception", bad)}; }
          Eigen::ArrayXd D(n); for (int i = 0; i < n; ++i) D(i) = r.uni(.1, 8); s.m("weights", lib::Modulation::weight_obstacles(D, r.uni(0, 3), r.uni(.5, 4)).matrix()); s.m("frame", Eigen::MatrixXd(lib::Modulation::compute_diagonal_eigenvalues(r.uni(0, 9)).toDenseMatrix())); seen("utilities"); } }
    if (w.obs.size() > 25) w.obs.erase(w.obs.begin(), w.obs.begin() + 5); }
  void go(int n) { for (int i = 0; i < n; ++i) step(); }
};
