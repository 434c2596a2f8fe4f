// C06: histories of registry operations against a map model; ownership counts watch for copies and leftovers.
#include "planar.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp"
typedef std::shared_ptr<lib::Obstacle> Ob;
struct Ent { Ob o; };
static void run(mon::Ctx& c) {
  auto& r = c.rng; bool agg = r.chance(0.6); lib::Environment env(agg); if (agg && r.chance(0.3)) env = lib::Environment();
  std::map<std::string, Ob> model;                 // registered
  std::vector<Ob> all; std::set<std::string> pool; // everything the user ever made
  std::vector<std::set<const lib::Obstacle*>> snap; // partition at the last update
  bool snapAgg = agg; std::map<const lib::Obstacle*, std::string> snapNames;
  int nNames = r.range(2, 7); std::string hist; int steps = r.range(5, 40); if (r.chance(.03)) { nNames = r.range(10, 30); steps = r.range(40, 150); }
  int style = r.below(5); std::vector<std::string> odd = oddNames(); odd.push_back(std::string("a\0b", 3)); odd.push_back("a"); odd.push_back(std::string("a\0c", 3)); r.shuffle(odd); // names: alike, one inside the other, empty, blank, long
  auto nm = [&](int i) { if (style == 0) return std::string("ob") + char('a' + i); if (style == 4) return i < (int)odd.size() ? odd[i] : std::to_string(i + 100); if (style == 1) return std::string(i, 'o'); if (style == 2) return mon::fmt(i % 2 ? "obstacle number %d with a long name" : "o b_%d", i); return mon::fmt(i % 3 == 0 ? "%d" : i % 3 == 1 ? "ob%d" : "OB%d", i / 3 + 8); };
  auto fresh = [&](const std::string& name) { if (r.chance(.08)) { Ob x; if (r.chance(.5)) x = std::make_shared<lib::Obstacle>(name); else { x = std::make_shared<lib::StarShapeHull>(r.chance(.5), 20); x->set_name(name); } x->set_position(eig(randV(r, 3))); all.push_back(x); c.cls("other kind of obstacle"); return x; } SpecOpt o; o.planar = true; o.box = 4; o.lmax = 1.5; o.curved = false; Spec s = randSpec(r, name, o); Ob x = build(s, r); all.push_back(x); return x; };
  auto specOf = [&](const lib::Obstacle& o) { const lib::Ellipsoid& e = static_cast<const lib::Ellipsoid&>(o); Spec s; s.pos = vec(e.get_position()); s.q = qof(e.get_orientation()); s.len = V(e.get_axis_lengths(0), e.get_axis_lengths(1), e.get_axis_lengths(2)); s.margin = V(e.get_safety_margin()(0), e.get_safety_margin()(1), e.get_safety_margin()(2)); return s; };
  auto compareList = [&](const char* when) {
    auto& l = env.get_obstacle_list(); std::vector<std::set<const lib::Obstacle*>> got;
    for (auto& o : l) { if (o->get_type() == "Aggregate") { std::set<const lib::Obstacle*> g; for (auto& p : static_cast<const lib::Aggregate&>(*o).get_primitives()) c.check(g.insert(p.get()).second, "list", "member twice in an aggregate"); got.push_back(g); } else got.push_back({o.get()}); }
    std::multiset<std::set<const lib::Obstacle*>> A(got.begin(), got.end()), B(snap.begin(), snap.end());
    c.check(A == B, "list", "%s: the list has %d entries, expected %d, or other groups; history %s", when, (int)got.size(), (int)snap.size(), hist.c_str()); };
  for (int st = 0; st < steps; ++st) {
    std::string name = nm(r.below(nNames)); bool reg = model.count(name);
    Ob held; if (reg && r.chance(.3)) held = model[name]; std::vector<Ob> grip; if (r.chance(.3)) for (auto& o : env.get_obstacle_list()) grip.push_back(o);  // the user may hold on to what is registered or listed
    switch (r.below(12)) {
      case 0: case 1: case 2: { Ob x = fresh(name); long before = x.use_count(); hist += "add " + name + "; "; std::vector<Ob> copies; if (r.chance(.2)) copies.assign(r.range(1, 4), x);
        bool threw = false;
        try { env.add_obstacle(x); }
        catch (const lib::Exceptions::ObstacleAlreadyExistsException& e) { threw = true; c.check(std::string(e.what()).find(name.c_str()) != std::string::npos, "exception-name", "the error does not name %s: %s", name.c_str(), e.what()); const std::runtime_error& re = e; (void)re; }
        catch (const std::exception& e) { c.fail("exception-type", "add of %s raised another error: %s", name.c_str(), e.what()); }
        c.check(threw == reg, "add", "add of %s name %s; history %s", reg ? "a taken" : "a free", threw ? "raised" : "did not raise", hist.c_str());
        copies.clear(); if (!threw) { model[name] = x; c.cls("add"); } else { c.check(x.use_count() == before, "hold", "a refused obstacle is held by the environment"); c.cls("add refused"); }
        break; }
      case 3: case 4: { hist += "remove " + name + "; "; bool threw = false;
        try { env.remove_obstacle(name); }
        catch (const lib::Exceptions::ObstacleNotInEnvironmentException& e) { threw = true; c.check(std::string(e.what()).find(name.c_str()) != std::string::npos, "exception-name", "the error does not name %s: %s", name.c_str(), e.what()); }
        catch (const std::exception& e) { c.fail("exception-type", "remove of %s raised another error: %s", name.c_str(), e.what()); }
        c.check(threw == !reg, "remove", "remove of %s name %s; history %s", reg ? "a registered" : "an unknown", threw ? "raised" : "did not raise", hist.c_str());
        if (!threw) { model.erase(name); c.cls("remove"); } else c.cls("remove refused"); break; }
      case 5: case 6: { hist += "look up " + name + "; ";
        try { Ob got = env[name]; c.check(reg, "lookup", "looking up %s, which is not registered, gave an obstacle; history %s", name.c_str(), hist.c_str()); c.check(got == model[name], "lookup", "looking up %s gave another object; history %s", name.c_str(), hist.c_str()); c.cls("lookup"); }
        catch (const lib::Exceptions::ObstacleNotInEnvironmentException& e) { c.check(!reg, "lookup", "looking up registered %s raised; history %s", name.c_str(), hist.c_str()); c.check(std::string(e.what()).find(name.c_str()) != std::string::npos, "exception-name", "the error does not name %s", name.c_str()); c.cls("lookup refused"); if (!reg && st) { for (auto& s : snapNames) if (s.second == name) { c.cls("lookup of a removed obstacle before the update"); break; } } }
        break; }
      case 7: { // aggregates by name
        for (auto& o : env.get_obstacle_list()) if (o->get_type() == "Aggregate") { hist += "look up " + o->get_name() + "; ";
          try { Ob g = env[o->get_name()]; c.check(env.is_aggregated(), "aggregate-lookup", "an aggregate was found with aggregation off"); c.check(g == o, "aggregate-lookup", "another object found under %s", o->get_name().c_str()); c.cls("aggregate looked up"); }
          catch (const lib::Exceptions::ObstacleNotInEnvironmentException&) { c.check(!env.is_aggregated(), "aggregate-lookup", "aggregate %s not found although aggregation is on", o->get_name().c_str()); c.cls("aggregate lookup refused"); } }
        try { env["aggregate_nosuch"]; c.fail("aggregate-lookup", "an unknown aggregate was found"); } catch (const lib::Exceptions::ObstacleNotInEnvironmentException&) {}
        break; }
      case 8: { bool b = r.chance(0.5); hist += b ? "aggregated on; " : "aggregated off; "; env.set_aggregated(b); c.check(env.is_aggregated() == b, "toggle", "is_aggregated does not read back"); agg = b; c.cls("toggle"); break; }
      case 9: { if (reg && r.chance(.15)) { std::string to = r.chance(.5) ? nm(r.below(nNames)) : "renamed"; hist += "rename " + name + " to " + to + "; "; model[name]->set_name(to); c.cls("rename"); break; } if (reg) { hist += "move " + name + "; "; V p = rd(randV(r, 4)); p.z = 0; model[name]->set_position(eig(p)); if (r.chance(0.5)) model[name]->set_orientation(eq(qyaw(r.uni(-3, 3)))); c.cls("move"); } break; }
      default: { // the groups must be unambiguous for the model to predict them
        std::vector<std::string> ns; for (auto& m : model) ns.push_back(m.first); int n = ns.size(); std::vector<int> par(n); for (int i = 0; i < n; ++i) par[i] = i; bool amb = false;
        auto root = [&](int i) { while (par[i] != i) i = par[i]; return i; };
        if (agg) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { if (model[ns[i]]->get_type() != "Ellipsoid" || model[ns[j]]->get_type() != "Ellipsoid") continue; int q = mustIntersect(foot(specOf(*model[ns[i]])), foot(specOf(*model[ns[j]]))); if (q < 0) amb = true; if (q > 0) par[root(i)] = root(j); }
        if (amb) break;
        hist += "update; "; env.update(); held.reset(); grip.clear(); std::map<int, std::set<const lib::Obstacle*>> g; for (int i = 0; i < n; ++i) g[root(i)].insert(model[ns[i]].get());
        snap.clear(); snapNames.clear(); for (auto& k : g) snap.push_back(k.second); for (auto& m : model) snapNames[m.second.get()] = m.first;
        snapAgg = agg; c.cls(agg ? "update with aggregation" : "update without aggregation");
        for (auto& k : g) if (k.second.size() > 1) { c.cls("update built an aggregate"); break; }
        // ownership: the user's handle + the registry + the list (or an aggregate) and nothing else
        for (auto& o : all) { long want = 1; for (auto& m : model) want += 2 * (m.second == o) + (m.second == o); // model copy, registry, list
          c.check(o.use_count() == want, "hold", "%s is held %ld times, expected %ld after an update; history %s", o->get_name().c_str(), (long)o.use_count(), want, hist.c_str()); } }
    }
    compareList("after the step");
    for (auto& m : model) { try { c.check(env[m.first] == m.second, "registry", "%s no longer gives its object; history %s", m.first.c_str(), hist.c_str()); } catch (const std::exception&) { c.fail("registry", "%s is lost; history %s", m.first.c_str(), hist.c_str()); } }
    for (auto& o : all) c.check(o.use_count() >= 1, "destroyed", "an obstacle was destroyed");
    c.note((double)model.size() * 100 + snap.size());
  }
  c.describe(hist); c.sig ^= std::hash<std::string>()(hist); (void)snapAgg;
  // copies of an environment are independent registries
  if (r.chance(0.3)) { lib::Environment e2(env); std::string k = "zz"; Ob x = fresh(k); e2.add_obstacle(x); e2.update(); bool threw = false; try { env[k]; } catch (const lib::Exceptions::ObstacleNotInEnvironmentException&) { threw = true; } c.check(threw, "copy", "adding to a copy of the environment shows in the original"); compareList("after changing a copy"); c.cls("copied environment"); }
  // everything is released with the environment
  env = lib::Environment(); for (auto& o : all) { long want = 1; for (auto& m : model) want += m.second == o; c.check(o.use_count() == want, "hold", "%s still held after the environment is gone (%ld)", o->get_name().c_str(), (long)o.use_count()); }
}
int main(int a, char** v) { return mon::drive(a, v, "C06", run); }
