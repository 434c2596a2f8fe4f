// C05: aggregation against connected components of the exact intersection graph.
#include "planar.hpp"
typedef std::shared_ptr<lib::Obstacle> Ob; typedef lib::Ellipsoid L;
static int findp(std::vector<int>& p, int i) { while (p[i] != i) i = p[i]; return i; }
// an aggregate put together by hand: from a list, or member by member
static void direct(mon::Ctx& c) {
  auto& r = c.rng; int n = r.range(1, 6); std::vector<Spec> S; std::vector<int> nm{0, 1, 2, 3, 4, 5}; r.shuffle(nm); SpecOpt so; so.planar = true; so.box = r.uni(.5, 4); so.curved = false; so.moving = true;
  auto odd = oddNames(); r.shuffle(odd); bool named = r.chance(.3); if (named && r.chance(.3)) std::swap(odd[nm[0]], *std::find(odd.begin(), odd.end(), ""));
  bool hts = r.chance(.4); for (int i = 0; i < n; ++i) { S.push_back(randSpec(r, named ? odd[nm[i]] : mon::fmt("m%d", nm[i]), so)); if (hts) S.back().pos.z = S.back().ref.z = (double)r.uni(-3, 3); c.describe(S.back().str()); } std::deque<Ob> O; for (auto& s : S) O.push_back(build(s, r)); std::shared_ptr<lib::Aggregate> A; int have; bool fresh = true;
  auto judge = [&](const lib::Aggregate& g, int k, const char* how) { std::vector<int> o(k); for (int i = 0; i < k; ++i) o[i] = i; std::sort(o.begin(), o.end(), [&](int a, int b) { return S[a].name < S[b].name; }); std::string name = "aggregate"; V mean; for (int i : o) { name += "_" + S[i].name; mean = mean + (1 / (R)k) * S[i].pos; }
    c.check(g.get_type() == "Aggregate" && (int)g.get_primitives().size() == k, "members", "%s: %d members, %d given", how, (int)g.get_primitives().size(), k); int at = 0; for (auto& m : g.get_primitives()) { c.check(m == O[o[at]], "sorted", "%s: member %d is %s and not %s", how, at, m->get_name().c_str(), S[o[at]].name.c_str()); ++at; c.check(dist(m->get_reference_position(), mean) < 1e-10L, "member-reference", "%s: member %s has reference point %s, mean %s", how, m->get_name().c_str(), vs(vec(m->get_reference_position())).c_str(), vs(mean).c_str()); }
    c.check(g.get_name() == name, "name", "%s: aggregate named %s, members give %s", how, g.get_name().c_str(), name.c_str()); c.check(dist(g.get_position(), mean) < 1e-10L, "position", "%s: aggregate at %s, mean %s", how, vs(vec(g.get_position())).c_str(), vs(mean).c_str()); c.check(dist(g.get_reference_position(), mean) < 1e-10L, "reference", "%s: reference point %s, mean %s", how, vs(vec(g.get_reference_position())).c_str(), vs(mean).c_str()); };
  if (r.chance(.5)) { have = r.range(1, n); A = std::make_shared<lib::Aggregate>(std::deque<Ob>(O.begin(), O.begin() + have)); judge(*A, have, "from a list"); c.cls("aggregate from a list"); } else { have = 0; A = std::make_shared<lib::Aggregate>(); fresh = false; }
  while (have < n) { bool up = r.chance(.5); if (r.chance(.3)) A->add_primitive(O[have]), up = true; else A->add_primitive(O[have], up); fresh = up; ++have; judge(*A, have, "member added"); c.cls("member added by hand"); }
  for (int i = 0; i < n; ++i) c.check(O[i]->get_name() == S[i].name && dist(O[i]->get_position(), S[i].pos) == 0 && dist(O[i]->get_linear_velocity(), S[i].lin) == 0, "member-modified", "member %d was modified beyond its reference point", i);
  if (!fresh) A->update_hull(); std::deque<Ob> O2; for (auto& s : S) O2.push_back(build(s, r)); lib::Aggregate B(O2); c.check(A->is_closed() == B.is_closed(), "same", "closed or not depends on how the aggregate was put together");
  V ref = vec(A->get_reference_position()); for (int i = 0; i < 12; ++i) { V p = rd(ref + randV(r, 5)); p.z = ref.z; lib::Agent a = buildAgent(r, p, V(), 0); R d = A->compute_distance_to_agent(a), e = B.compute_distance_to_agent(a); c.check(std::fabs(d - e) <= 1e-9L * (1 + std::fabs(e)) && A->point_is_inside(eig(p)) == B.point_is_inside(eig(p)), "same", "distance of %s depends on how the aggregate was put together: %.12Lg and %.12Lg", vs(p).c_str(), d, e); }
  E3 q = eig(randV(r, 3)); A->set_reference_position(q); c.check(A->get_reference_position() == q, "reference", "the reference point is not the one set"); for (auto& m : A->get_primitives()) c.check(m->get_reference_position() == q, "member-reference", "a member does not follow the reference point of its aggregate"); c.note((double)S[0].pos.x); c.note(n); }
// lists that also hold hand-made aggregates, bare hulls and base obstacles: an aggregate meets what one of its members meets, the others meet nothing
static void mixed(mon::Ctx& c) {
  auto& r = c.rng; int n = r.range(1, 9); std::vector<int> nm(n); for (int i = 0; i < n; ++i) nm[i] = i; r.shuffle(nm); SpecOpt so; so.planar = true; so.box = r.uni(2, 8); so.lmin = .4; so.lmax = 2; so.moving = true; so.curved = false;
  struct Node { int kind; std::vector<Spec> s; V pos; std::string name; }; std::vector<Node> N; bool nested = r.chance(.6);
  for (int i = 0; i < n; ++i) { Node d; d.kind = nested && r.chance(.35) ? 1 : r.chance(.2) ? 2 : r.chance(.15) ? 3 : 0; d.name = mon::fmt("%c%d", 'a' + nm[i], nm[i]); int k = d.kind == 1 ? r.range(1, 3) : d.kind == 0 ? 1 : 0;
    for (int j = 0; j < k; ++j) { bool ok = false; Spec s; for (int t = 0; t < 30 && !ok; ++t) { s = randSpec(r, d.kind == 1 ? d.name + char('p' + j) : d.name, so); s.pos.z = s.ref.z = 0; ok = true; Foot f = foot(s); for (auto& m : N) for (auto& q : m.s) if (mustIntersect(f, foot(q)) < 0) ok = false; } if (!ok) c.skip(); d.s.push_back(s); d.pos = d.pos + (1 / (R)k) * s.pos; c.describe(s.str()); }
    if (!k) { d.pos = rd(randV(r, so.box)); d.pos.z = 0; } c.describe(mon::fmt(" node %d kind %d;", i, d.kind)); N.push_back(d); }
  std::vector<int> par(n), ord(n); for (int i = 0; i < n; ++i) par[i] = ord[i] = i; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) for (auto& a : N[i].s) for (auto& b : N[j].s) if (mustIntersect(foot(a), foot(b)) == 1) par[findp(par, i)] = findp(par, j);
  std::map<int, std::set<int>> comp; for (int i = 0; i < n; ++i) comp[findp(par, i)].insert(i);
  for (int w = 0; w < 2; ++w) { std::vector<Ob> O; std::map<const lib::Obstacle*, int> idx; std::vector<V> ref; std::vector<std::deque<Ob>> mem(n);
    for (int i = 0; i < n; ++i) { Ob o; Node& d = N[i]; if (d.kind == 0) o = build(d.s[0], r); else if (d.kind == 1) { for (auto& s : d.s) mem[i].push_back(build(s, r)); auto g = std::make_shared<lib::Aggregate>(mem[i]); d.name = g->get_name(); o = g; } else if (d.kind == 2) { o = std::make_shared<lib::Obstacle>(d.name); o->set_position(eig(d.pos)); } else { auto h = std::make_shared<lib::StarShapeHull>(r.chance(.5), 30); h->set_name(d.name); h->set_position(eig(d.pos)); h->set_reference_position(eig(d.pos)); o = h; } idx[o.get()] = i; O.push_back(o); ref.push_back(vec(o->get_reference_position())); }
    std::deque<Ob> list; for (int i : ord) list.push_back(O[i]); const std::deque<Ob> keep = list; auto out = lib::Aggregation::aggregate_obstacles(list); c.check(keep == list, "input", "the given list was changed"); std::vector<int> count(n, 0); std::set<std::set<int>> got;
    for (auto& o : out) { if (idx.count(o.get())) { int i = idx[o.get()]; ++count[i]; got.insert({i}); c.check(o->get_name() == N[i].name && dist(o->get_position(), N[i].pos) < 1e-12L && dist(o->get_reference_position(), ref[i]) == 0, "alone-modified", "obstacle %d alone was modified", i); if (N[i].kind == 1) c.check(static_cast<lib::Aggregate&>(*o).get_primitives() == mem[i] || static_cast<lib::Aggregate&>(*o).get_primitives().size() == mem[i].size(), "alone-modified", "aggregate %d alone has other members", i); continue; }
      c.check(o->get_type() == "Aggregate", "copy", "an element of the result is neither a given obstacle nor an aggregate"); auto& g = static_cast<const lib::Aggregate&>(*o); c.check(g.get_primitives().size() >= 2, "small-aggregate", "aggregate with %d members", (int)g.get_primitives().size()); std::set<int> m; V mean; std::string name = "aggregate", last;
      for (auto& q : g.get_primitives()) { c.check(idx.count(q.get()), "copy", "an aggregate holds something that was not given"); int i = idx[q.get()]; ++count[i]; m.insert(i); mean = mean + (1 / (R)g.get_primitives().size()) * N[i].pos; name += "_" + q->get_name(); c.check(last <= q->get_name(), "sorted", "members not sorted by name"); last = q->get_name(); if (N[i].kind == 1) c.cls("hand-made aggregate joined to others"); }
      c.check(g.get_name() == name, "name", "aggregate named %s, members give %s", g.get_name().c_str(), name.c_str()); c.check(dist(g.get_position(), mean) < 1e-10L && dist(g.get_reference_position(), mean) < 1e-10L, "position", "aggregate %s not at the mean of its members", name.c_str());
      for (auto& q : g.get_primitives()) { c.check(dist(q->get_reference_position(), mean) < 1e-10L, "member-reference", "member %s does not have the reference point of its aggregate", q->get_name().c_str()); for (auto& x : mem[idx[q.get()]]) c.check(dist(x->get_reference_position(), mean) < 1e-10L, "member-reference", "%s, in an aggregate within an aggregate, does not have the reference point of the outer one", x->get_name().c_str()); } got.insert(m); }
    for (int i = 0; i < n; ++i) c.check(count[i] == 1, "once", "obstacle %d (kind %d) returned %d times", i, N[i].kind, count[i]); for (auto& k : comp) c.check(got.count(k.second), "partition", "the component of obstacle %d (%d obstacles) is not one group", k.first, (int)k.second.size());
    r.shuffle(ord); }
  c.cls("scene with other kinds of obstacles"); c.note(n); c.note((double)N[0].pos.x); c.note(comp.size()); }
static void run(mon::Ctx& c) {
  if (c.rng.chance(.1)) return direct(c); if (c.rng.chance(.06)) return mixed(c);
  auto& r = c.rng; int n = r.range(0, 12); if (r.chance(0.7)) n = r.range(4, 11); bool many = r.chance(.03); if (many) n = r.range(20, 40); bool crowd = r.chance(.003); int chain = 2, cmode = -1; if (crowd) { n = r.range(260, 420); many = true; if (r.chance(.5)) { cmode = 2; chain = r.chance(.7) ? 3 : 2; n = r.chance(.25) ? r.range(780, 820) : r.range(395, 450); } }
  std::vector<Spec> S; std::vector<Foot> F; double box = crowd ? r.uni(15, 50) : many ? r.uni(12, 30) : r.uni(2, 12);
  bool hts = r.chance(.3); if (hts) c.cls("obstacles at different heights"); int mode = cmode >= 0 ? cmode : r.below(4); auto odd = oddNames(); r.shuffle(odd); bool named = n <= (int)odd.size() && r.chance(.15);
  std::vector<int> nm(n); for (int i = 0; i < n; ++i) nm[i] = i; r.shuffle(nm);
  for (int i = 0; i < n; ++i) {
    SpecOpt o; o.planar = true; o.box = box; o.lmin = 0.4; o.lmax = 2.5; o.moving = true; o.curved = true;
    Spec s; bool ok = false;
    for (int t = 0; t < 40 && !ok; ++t) {
      s = randSpec(r, named ? odd[nm[i]] : std::string(1, 'a' + nm[i] % 26) + (r.chance(0.5) && !crowd ? "" : std::to_string(nm[i])), o);
      if (mode == 1 && i && r.chance(0.8)) { const Foot& f = F[r.chance(0.6) ? i - 1 : r.below(i)]; R th = r.uni(0, 6.2831853); s.pos.x = f.x + (f.a + s.len.x * 0.7) * std::cos(th); s.pos.y = f.y + (f.b + s.len.x * 0.7) * std::sin(th); }   // chains
      if (crowd && mode == 2) { s.len = V(r.uni(.5, .7), r.uni(.5, .7), 1); s.margin = V(); s.pos.x = (i % chain) * 1.05; s.pos.y = (i / chain) * 3; }  // pairs: very many groups
      else if (mode == 2) { s.len = V(r.uni(.5, .7), r.uni(.5, .7), 1); s.pos.x = (i % 4) * (r.chance(0.5) ? 1.0 : 1.6); s.pos.y = (i / 4) * (r.chance(0.5) ? 1.0 : 1.7); }      // grids: many merges
      if (mode == 3 && i + 1 == n) { s.len = V(box, r.uni(0.3, box), 1); s.pos = V(); }  // a late obstacle joining many groups
      s.pos = rd(s.pos); s.len = rd(s.len); s.pos.z = hts ? (double)r.uni(-3, 3) : 0; s.ref = r.chance(0.5) ? s.pos : rd(refInside(s, r, true));
      ok = true; Foot f = foot(s);
      for (auto& g : F) if (mustIntersect(f, g) < 0) { ok = false; break; } }
    if (!ok) c.skip();
    S.push_back(s); F.push_back(foot(s)); }
  int edges = 0, merges = 0; std::vector<std::vector<char>> X(n, std::vector<char>(n, 0)); std::map<int, std::set<int>> comp;
  auto graph = [&]() { std::vector<int> par(n); for (int i = 0; i < n; ++i) par[i] = i; edges = 0; comp.clear();
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) X[i][j] = X[j][i] = mustIntersect(F[i], F[j]) == 1;
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (X[i][j]) { ++edges; par[findp(par, i)] = findp(par, j); }
    for (int i = 0; i < n; ++i) comp[findp(par, i)].insert(i); };
  graph();
  for (auto& s : S) c.describe(s.str());
  bool equalNames = false; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) equalNames |= S[i].name == S[j].name;
  if (equalNames) c.skip();
  int orders = crowd ? 1 : 3; if (crowd) c.cls("hundreds of obstacles"); std::vector<Ob> O(n); std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i;
  for (int w = 0; w < orders; ++w) {
    bool in_place = w && n && r.chance(.4); if (!in_place || r.chance(.3)) if (w) r.shuffle(ord);
    if (in_place) { for (int i = 0; i < n; ++i) S[i].ref = vec(O[i]->get_reference_position());
      for (int t = r.range(0, 3); t--;) { int i = r.below(n); Spec was = S[i]; L& e = static_cast<L&>(*O[i]); std::string what = tweak(S[i], e, r, true); Foot f = foot(S[i]); bool ok = true; for (int j = 0; j < n && ok; ++j) if (j != i) ok = mustIntersect(f, F[j]) >= 0;
        if (!ok) { S[i] = was; e.set_position(eig(was.pos)); e.set_orientation(eq(was.q)); e.set_axis_lengths(arr(was.len)); e.set_linear_velocity(eig(was.lin)); e.set_angular_velocity(eig(was.ang)); e.set_name(was.name); continue; }
        F[i] = f; c.describe(" then " + what + " " + S[i].str()); c.cls("grouped again after an obstacle changed in place"); }
      graph(); }
    std::string os; for (int i : ord) os += " " + std::to_string(i);
    std::map<const lib::Obstacle*, int> idx; std::deque<Ob> list;
    for (int i = 0; i < n; ++i) { if (!in_place) O[i] = build(S[i], r); idx[O[i].get()] = i; }
    for (int i : ord) list.push_back(O[i]);
    const std::deque<Ob> keep = list;
    std::deque<Ob> out = lib::Aggregation::aggregate_obstacles(list);
    c.check(keep == list, "input", "the given list was changed");
    std::vector<int> count(n, 0); std::set<std::set<int>> got;
    int groupsSeen = 0;
    for (auto& o : out) {
      c.check((bool)o, "null", "null obstacle in the result");
      if (idx.count(o.get())) { int i = idx[o.get()]; ++count[i]; got.insert({i});
        const Spec& s = S[i]; const L& e = static_cast<const L&>(*o);
        c.check(e.get_name() == s.name && dist(e.get_position(), s.pos) == 0 && dist(e.get_reference_position(), s.ref) == 0 && e.get_axis_lengths(0) == (double)s.len.x && dist(e.get_linear_velocity(), s.lin) == 0, "alone-modified", "obstacle %d alone was modified (order%s)", i, os.c_str()); continue; }
      c.check(o->get_type() == "Aggregate", "copy", "an element of the result is neither a given obstacle nor an aggregate (order%s)", os.c_str());
      auto& g = static_cast<const lib::Aggregate&>(*o); ++groupsSeen;
      c.check(g.get_primitives().size() >= 2, "small-aggregate", "aggregate with %d members (order%s)", (int)g.get_primitives().size(), os.c_str());
      std::set<int> mem; V mean; std::string name = "aggregate", last;
      for (auto& m : g.get_primitives()) {
        c.check(idx.count(m.get()), "copy", "an aggregate holds something that was not given");
        int i = idx[m.get()]; ++count[i]; mem.insert(i); mean = mean + S[i].pos; name += "_" + m->get_name();
        c.check(last <= m->get_name(), "sorted", "members not sorted by name: %s before %s (order%s)", last.c_str(), m->get_name().c_str(), os.c_str()); last = m->get_name();
        c.check(m->get_name() == S[i].name && dist(m->get_position(), S[i].pos) == 0 && dist(m->get_linear_velocity(), S[i].lin) == 0, "member-modified", "member %d was modified beyond its reference point", i); }
      mean = (R)(1.0L / g.get_primitives().size()) * mean;
      c.check(g.get_name() == name, "name", "aggregate named %s, members give %s (order%s)", g.get_name().c_str(), name.c_str(), os.c_str());
      c.check(dist(g.get_position(), mean) < 1e-12L * 100, "position", "aggregate %s at %s, mean of members %s (order%s)", name.c_str(), vs(vec(g.get_position())).c_str(), vs(mean).c_str(), os.c_str());
      c.check(dist(g.get_reference_position(), mean) < 1e-12L * 100, "reference", "aggregate %s reference point %s, mean of members %s", name.c_str(), vs(vec(g.get_reference_position())).c_str(), vs(mean).c_str());
      for (auto& m : g.get_primitives()) c.check(dist(m->get_reference_position(), mean) < 1e-12L * 100, "member-reference", "member %s has reference point %s, its aggregate %s (order%s)", m->get_name().c_str(), vs(vec(m->get_reference_position())).c_str(), vs(mean).c_str(), os.c_str());
      got.insert(mem); }
    for (int i = 0; i < n; ++i) c.check(count[i] == 1, "once", "obstacle %d (%s) returned %d times (order%s)", i, S[i].name.c_str(), count[i], os.c_str());
    for (auto& k : comp) c.check(got.count(k.second), "partition", "the component of obstacle %d (%d obstacles) is not one group; %d groups returned, %d expected (order%s)", k.first, (int)k.second.size(), (int)got.size(), (int)comp.size(), os.c_str());
    c.check(got.size() == comp.size(), "partition", "%d groups, expected %d", (int)got.size(), (int)comp.size());
    // how often does this order merge two existing groups?
    { std::vector<int> a(n, -1); int fresh = 0; for (int x = 0; x < n; ++x) for (int y = x + 1; y < n; ++y) { int i = ord[x], j = ord[y]; if (!X[i][j]) continue; if (a[i] < 0 && a[j] < 0) a[i] = a[j] = fresh++; else if (a[i] < 0) a[i] = a[j]; else if (a[j] < 0) a[j] = a[i]; else if (a[i] != a[j]) { ++merges; int q = a[j]; for (auto& v : a) if (v == q) v = a[i]; } } }
  }
  if (merges) c.cls("existing groups merged"); if (merges > 2) c.cls("several merges in one scene");
  int big = 0, multi = 0; for (auto& k : comp) { big = std::max(big, (int)k.second.size()); multi += k.second.size() > 1; }
  if (multi > 1) c.cls("several aggregates"); if (big > 4) c.cls("group of five or more"); if ((int)comp.size() == n) c.cls("no intersection"); if (n == 0) c.cls("empty list");
  c.note(edges); c.note(n ? (double)S[0].pos.x : 0); c.cls("scene");
}
int main(int a, char** v) { return mon::drive(a, v, "C05", run); }
