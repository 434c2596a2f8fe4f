// C20: threads run queries on shared objects, and updates on objects of their own, under ThreadSanitizer; every answer is compared bit by bit with sequential runs.
#include "planar.hpp"
#include <thread>
#include <atomic>
#include <sched.h>
#include <unistd.h>
struct World { std::vector<Spec> S; std::vector<lib::Environment> envs; std::vector<lib::Agent> agents; std::vector<std::shared_ptr<lib::Obstacle>> obs; };
static void put(std::vector<double>& o, const E3& e) { for (int i = 0; i < 3; ++i) o.push_back(e(i)); }
static void putM(std::vector<double>& o, const Eigen::MatrixXd& m) { for (int i = 0; i < m.size(); ++i) o.push_back(m.data()[i]); }
// one query, chosen by r; only const use of the world
static void query(World& w, mon::Rng& r, std::vector<double>& o) {
  lib::Agent& a = w.agents[r.below(w.agents.size())]; auto& ob = *w.obs[r.below(w.obs.size())]; const lib::Environment& e = w.envs[r.below(w.envs.size())]; E3 p = eig(randV(r, 8)); if (r.chance(.6)) p(2) = 0;
  switch (r.below(15)) {
    case 0: case 1: case 2: put(o, lib::Modulation::modulate_velocity(a, e, r.chance(.3), r.chance(.5), false, r.uni(.5, 2), r.uni(1, 3))); break;
    case 3: o.push_back(ob.compute_distance_to_point(p, r.uni(0, 1))); o.push_back(ob.compute_distance_to_agent(a)); break;
    case 4: put(o, ob.compute_normal_to_agent(a)); break;
    case 5: o.push_back(ob.point_is_inside(p)); o.push_back(ob.is_closed()); break;
    case 6: o.push_back(ob.is_intersecting(*w.obs[r.below(w.obs.size())])); break;
    case 7: o.push_back(a.in_obstacle(ob)); o.push_back(a.exist_path(p, e.get_obstacle_list())); break;
    case 8: putM(o, ob.sample_from_parameterization(r.range(2, 30), r.chance(.5))); break;
    case 9: { auto t = ob.compute_interesection_points(p, eig(randV(r, 5))); o.push_back(t.first); put(o, t.second.first); put(o, t.second.second); break; }
    case 10: { auto t = lib::Modulation::compute_modulation_matrix(a, ob); putM(o, std::get<0>(t)); putM(o, std::get<1>(t)); o.push_back(std::get<2>(t)); break; }
    case 11: put(o, ob.generate_repulsion(a, r.uni(.5, 3))); put(o, ob.compute_repulsion_vector(a)); break;
    case 12: { lib::Agent b(a); b = b.transformed(lib::Pose(p, Eigen::Quaterniond(1, .1, 0, .3))); put(o, b.get_position()); o.push_back(b.get_envelope().point_is_inside(p)); o.push_back(b.get_envelope().is_intersecting(e.get_obstacle_list())); break; }
    case 13: { auto l = lib::MathTools::linspace(0, 1, r.range(2, 9)); o.insert(o.end(), l.begin(), l.end()); put(o, lib::MathTools::cartesian_to_polar(p)); std::ostringstream os; os << ob << a; o.push_back((double)os.str().size()); break; }
    default: { o.push_back((double)e.get_obstacle_list().size()); o.push_back(a.get_envelope().is_intersecting(e.get_obstacle_list())); put(o, ob.get_reference_position()); put(o, a.get_position()); Eigen::ArrayXd d(3); d << r.uni(.2, 3), r.uni(.2, 3), r.uni(1, 3); putM(o, lib::Modulation::weight_obstacles(d, 1., 2.).matrix()); if (auto* el = dynamic_cast<lib::Ellipsoid*>(&ob)) o.push_back(el->area()); } } }
static std::vector<double> snapshot(World& w) { std::vector<double> o; for (auto& b : w.obs) { put(o, b->get_position()); put(o, b->get_reference_position()); put(o, b->get_linear_velocity()); put(o, b->get_angular_velocity()); for (int i = 0; i < 4; ++i) o.push_back(b->get_orientation().coeffs()(i)); for (int i = 0; i < 3; ++i) o.push_back(b->get_safety_margin()(i)); o.push_back((double)b->get_name().size()); o.push_back(b->compute_distance_to_point(E3(1, 2, 0))); o.push_back(b->compute_distance_to_point(E3(-4, .5, 0))); }
  for (auto& a : w.agents) { put(o, a.get_position()); put(o, a.get_linear_velocity()); o.push_back(a.get_safety_margin()); put(o, a.get_envelope().get_position()); } for (auto& e : w.envs) { o.push_back(e.is_aggregated()); for (auto& b : e.get_obstacle_list()) o.push_back((double)(size_t)b.get()); } return o; }
static bool eqbits(const std::vector<double>& a, const std::vector<double>& b, size_t* at) { for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) if (std::memcmp(&a[i], &b[i], 8) && !(a[i] != a[i] && b[i] != b[i])) { *at = i; return false; } *at = std::min(a.size(), b.size()); return a.size() == b.size(); }
struct Gate { std::atomic<int> in{0}; std::atomic<long> overlaps{0}; };
template <class F> static void threads(int T, uint64_t seed, Gate& g, F f) { std::atomic<int> ready{0}; std::vector<std::thread> t; for (int k = 0; k < T; ++k) t.emplace_back([&, k] { mon::Rng d(seed * 77 + k); ready.fetch_add(1); while (ready.load() < T) sched_yield(); f(k, d); }); for (auto& x : t) x.join(); }
static void jitter(mon::Rng& d) { switch (d.below(8)) { case 0: sched_yield(); break; case 1: usleep(d.below(40)); break; case 2: for (volatile int i = 0; i < d.below(2000) + 1; ++i) {} break; default: break; } }
static void shared(mon::Ctx& c) {
  auto& r = c.rng; World w, twin; std::string d; bool first = r.chance(.5); mon::Rng keep = r;
  auto make = [&](World& w, mon::Rng& r) { int n = r.range(2, 6); d.clear(); SpecOpt so; so.planar = r.chance(.7); so.moving = true; so.box = r.uni(2, 7); lib::Environment plain(false), agg(true);
  for (int i = 0; i < n; ++i) { Spec s = randSpec(r, mon::fmt("s%d", i), so); d += s.str(); auto o = build(s, r); w.obs.push_back(o); plain.add_obstacle(o); agg.add_obstacle(o); } plain.update(); agg.update(); for (auto& o : agg.get_obstacle_list()) if (o->get_type() == "Aggregate") { w.obs.push_back(o); c.cls("shared aggregate"); }
  { std::deque<std::shared_ptr<lib::Obstacle>> dd(w.obs.begin(), w.obs.begin() + 2); w.obs.push_back(std::make_shared<lib::StarShapeHull>(dd, r.chance(.5), 40, .3)); } w.envs.push_back(plain); w.envs.push_back(agg);
  for (int i = 0; i < 3; ++i) { V p = rd(randV(r, 7)), v = rd(randV(r, 1)); if (so.planar) p.z = v.z = 0; w.agents.push_back(buildAgent(r, p, v, r.chance(.5) ? 0 : .3)); } };
  // in half of the cases nobody has asked these objects anything before the threads do: the expected answers come from twins
  if (first) { make(twin, keep); c.cls("first questions asked by threads"); } make(w, r); c.describe(d); World& ref = first ? twin : w;
  int T = r.range(2, 6), K = r.range(10, 40); uint64_t base = r.next(); auto snap = first ? std::vector<double>() : snapshot(w); std::vector<std::vector<double>> seq(T), par(T), again(T); size_t at;
  for (int k = 0; k < T; ++k) { mon::Rng q(base + k); for (int i = 0; i < K; ++i) query(ref, q, seq[k]); }
  Gate g; std::atomic<long> seen{0}; threads(T, base, g, [&](int k, mon::Rng& dl) { mon::Rng q(base + k); for (int i = 0; i < K; ++i) { jitter(dl); if (g.in.fetch_add(1, std::memory_order_relaxed) > 0) g.overlaps.fetch_add(1, std::memory_order_relaxed); query(w, q, par[k]); g.in.fetch_sub(1, std::memory_order_relaxed); } });
  for (int k = T - 1; k >= 0; --k) { mon::Rng q(base + k); for (int i = 0; i < K; ++i) query(w, q, again[k]); }
  for (int k = 0; k < T; ++k) { c.check(eqbits(seq[k], again[k], &at), "repeat", "value %zu of sequence %d differs when the queries are repeated in another order", at, k); c.check(eqbits(seq[k], par[k], &at), "parallel", "value %zu of thread %d differs from the sequential run", at, k); c.checks += (long)seq[k].size(); }
  c.check(first || eqbits(snap, snapshot(w), &at), "changed", "queries changed an object (value %zu of the snapshot)", at); c.cls("shared objects"); c.classes["queries overlapping another thread's"] += g.overlaps.load(); c.classes["queries in threads"] += (long)T * K; c.note((double)base); }
static void own(World& w, mon::Rng& q, int K, std::vector<double>& o, mon::Rng* dl) {
  lib::Environment e(q.chance(.6)); lib::Agent a; std::vector<std::shared_ptr<lib::Ellipsoid>> mine; SpecOpt so; so.planar = true; so.moving = true; so.box = 4;
  for (int i = 0; i < K; ++i) { if (dl) jitter(*dl);
    switch (q.below(7)) { case 0: { Spec s = randSpec(q, mon::fmt("t%d", (int)mine.size()), so); mine.push_back(build(s, q)); e.add_obstacle(mine.back()); break; } case 1: if (!mine.empty()) { auto& m = mine[q.below(mine.size())]; m->set_position(eig(rd(randV(q, 4)))); m->set_axis_lengths(Eigen::Array3d(q.uni(.3, 2), q.uni(.3, 2), 1)); } break; case 2: e.update(); o.push_back((double)e.get_obstacle_list().size()); break; case 3: a.set_position(eig(rd(randV(q, 5)))); a.set_linear_velocity(eig(rd(randV(q, 1)))); break; case 4: put(o, lib::Modulation::modulate_velocity(a, e, q.chance(.3), q.chance(.5), q.chance(.6))); for (auto& m : mine) put(o, m->get_reference_position()); break; case 5: { std::string n = mon::fmt("t%d", q.below(6)); try { put(o, e[n]->get_position()); if (q.chance(.3)) e.remove_obstacle(n); } catch (const std::exception& x) { o.push_back((double)std::string(x.what()).size()); } break; } default: e.set_aggregated(q.chance(.6)); query(w, q, o); } } }
static void disjoint(mon::Ctx& c) {
  auto& r = c.rng; World w; SpecOpt so; so.planar = true; w.envs.emplace_back(false); for (int i = 0; i < 3; ++i) { w.obs.push_back(build(randSpec(r, mon::fmt("s%d", i), so), r)); w.envs[0].add_obstacle(w.obs.back()); } w.envs[0].update(); w.agents.push_back(buildAgent(r, V(1, 2, 0), V(1, 0, 0), 0));
  int T = r.range(2, 6), K = r.range(10, 40); uint64_t base = r.next(); std::vector<std::vector<double>> seq(T), par(T); size_t at; c.describe(mon::fmt("%d threads with own environments, %d steps, seed %llu", T, K, (unsigned long long)base));
  for (int k = 0; k < T; ++k) { mon::Rng q(base + k); own(w, q, K, seq[k], nullptr); } Gate g; threads(T, base, g, [&](int k, mon::Rng& dl) { mon::Rng q(base + k); own(w, q, K, par[k], &dl); });
  for (int k = 0; k < T; ++k) { c.check(eqbits(seq[k], par[k], &at), "disjoint", "value %zu of thread %d with objects of its own differs from the sequential run", at, k); c.checks += (long)seq[k].size(); } c.cls("objects of their own"); c.note((double)base); }
static void run(mon::Ctx& c) { if (c.rng.chance(.6)) shared(c); else disjoint(c); }
int main(int a, char** v) { return mon::drive(a, v, "C20", run); }
